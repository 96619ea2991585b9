#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the lists of properties, checks and not-applicable properties)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, claim=None, na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a, _claim=claim, _na=na))

prop('C01', 'Domain and index arithmetic denotes exact index sets',
 'A domain (first, stride, length) denotes exactly the indices first+k*stride, and its arithmetic, equality, size, intersection, projection and traversal operations give exactly the index sets their definitions state, in every dimension.',
 ['inputs'], 'all valid domains of dimension 1-3, all offsets and factors that keep the domain valid, all indices',
 'tests compare a handful of literal domains; negative strides, single elements, empty domains and partial overlaps are quantified over all integers',
 ['src/vsip/domain.hpp', 'src/ovxx/domain_utils.hpp', 'src/ovxx/vertex.hpp', 'src/ovxx/length.hpp'],
 [('domain constructors, impl_nth, equality, + - * /', 'src/vsip/domain.hpp'), ('intersect, apply_intr, subset_from_intr, next', 'src/ovxx/domain_utils.hpp')],
 claim=('proof', 'every contract is proved for all sizes'))
prop('C02', 'Every element of a block has its own storage inside the allocation',
 'For every dimension, storage order, packing, alignment and complex storage format, the element addresses a layout yields are distinct, lie inside the storage the block allocates, respect the requested order, density and alignment, and reading an element returns what was last written to that element.',
 ['inputs', 'configurations'], 'all block sizes up to 2^24 (1-D), 2^20 (2-D), 2^16 (3-D) elements per dimension; all dimension orders, dense/unit-stride/aligned packings, array, interleaved and split complex formats',
 'tests use a few small sizes per layout, and an overlap or an overrun depends on the combination of sizes, order and padding',
 ['src/ovxx/layout.hpp', 'src/ovxx/storage/block.hpp', 'src/ovxx/storage/host.hpp', 'src/ovxx/storage/storage.hpp', 'src/vsip/dense.hpp', 'src/ovxx/strided.hpp'],
 [('Applied_layout index/size/stride', 'src/ovxx/layout.hpp'), ('stored_block get/put', 'src/ovxx/storage/block.hpp')],
 claim=('proof', 'every contract is proved for all sizes up to the stated maxima'))
prop('C03', 'Subviews are exact aliases of the elements they select',
 'A subview (domain, row, column, slice, plane, diagonal, transpose, permutation, real or imaginary part, and compositions of them) selects exactly the elements its definition states: reading it reads those elements, writing one changes exactly that element of the parent, and every other element is left unchanged.',
 ['inputs', 'programs'], 'all parent sizes, all valid domains (any stride sign), all element positions, in 1-3 dimensions and both storage orders',
 'tests use fixed small shapes; the aliasing must hold for each index of each shape, including the elements that must not change',
 ['src/vsip/vector.hpp', 'src/vsip/matrix.hpp', 'src/vsip/tensor.hpp', 'src/ovxx/expr/subset.hpp', 'src/ovxx/expr/sliced.hpp', 'src/ovxx/expr/transposed.hpp', 'src/ovxx/expr/permuted.hpp', 'src/ovxx/expr/diag.hpp', 'src/ovxx/expr/component.hpp'],
 [('index mapping of each adaptor block (get, put, ref)', 'src/ovxx/expr'), ('subview construction', 'src/vsip/vector.hpp, matrix.hpp, tensor.hpp')],
 claim=('proof', 'every contract is proved for all sizes up to the stated maxima'))
prop('C04', 'Assignment computes every element from the right operands and nothing else',
 'An assignment or compound assignment of an element-wise expression sets each element of the destination view to the expression applied to the corresponding elements of the operands, exactly once, whatever the layouts, strides and storage orders involved, and leaves every other element of the destination storage unchanged.',
 ['inputs', 'configurations'], 'all sizes and strides up to the stated maxima; dense, strided, reversed, row- and column-major and transposed operands in 1-3 dimensions; scalar operands; nested expressions',
 'which evaluator runs (memcpy, transpose, strided copy, fused loop) depends on layouts and strides; tests exercise a few shapes and rarely look at the elements that must not change',
 ['src/ovxx/assign.hpp', 'src/ovxx/assign/copy.hpp', 'src/ovxx/assign/loop_fusion.hpp', 'src/ovxx/assign/rbo.hpp', 'src/ovxx/expr', 'src/ovxx/dispatcher', 'src/ovxx/view/operators.hpp', 'src/vsip/impl/vmmul.hpp'],
 [('evaluators of op::assign', 'src/ovxx/assign'), ('expression blocks', 'src/ovxx/expr')],
 claim=('proof', 'in-place transposition of a square matrix onto itself and a compound assignment between two permuted tensors are beyond the loop-invariant inference and are checked with bounded inputs only'))
prop('C06', 'Reductions account for every element exactly once',
 'Sum, mean, square and logical reductions combine every element of the view exactly once, whatever its layout, stride and length; an extremum reduction returns a value that no element exceeds together with the index of an element that has it (in a vector, the first one).',
 ['inputs', 'configurations'], 'all lengths and strides, dense/strided/reversed views and expressions, both storage orders, float, double, complex, integer and boolean elements',
 'long single-precision sums take another code path from 4096 elements on; tests are short, unit-stride and compare within a tolerance',
 ['src/ovxx/reductions/reductions.hpp', 'src/ovxx/reductions/reductions_idx.hpp', 'src/ovxx/reductions/functors.hpp', 'src/vsip/impl/reductions'],
 [('generic reduction evaluators', 'src/ovxx/reductions/reductions.hpp'), ('index reductions', 'src/ovxx/reductions/reductions_idx.hpp')],
 claim=('proof', 'floating-point additions and products are uninterpreted: the reference applies the same operations in the same order'))

exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
T = 'contract-based deductive verification: contracts over the compiled code of /repo, symbolic execution with inferred and proved loop invariants, obligations discharged by z3/cvc5'
M = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [], 'not_applicable': []}
for p in P:
    if p['_claim']:
        M['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                            'technique': T, 'level': p['_claim'][0], 'level_note': p['_claim'][1]})
    else: M['not_applicable'].append({'property': p['id'], 'reason': p['_na']})
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
