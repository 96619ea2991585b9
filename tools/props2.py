prop('C10', 'Selection and generation functions pick, place and order elements as defined',
 'clip and invclip replace exactly the elements beyond their thresholds; first returns the first index satisfying its predicate; indexbool lists the indices of the true elements in order, as many as fit, and counts them all; gather and scatter move exactly the indexed elements; swap exchanges two views element by element; ramp generates a + k b.',
 ['inputs', 'configurations'], 'all lengths, thresholds, index lists (with repetitions), strides and storage orders',
 'thresholds out of order, repeated indices, index lists that are too short and operands of different storage order are combinations the tests do not sample',
 ['src/vsip/selgen.hpp', 'src/ovxx/expr/generator.hpp', 'src/ovxx/expr/unary.hpp'],
 [('clip/invclip functors, indexbool, gather, scatter, Swap, ramp generator', 'src/vsip/selgen.hpp')],
 claim=('proof', 'MPI is replaced by a stand-in reporting one process'))
prop('C07', 'Vector and matrix products compute their defining sums',
 'dot, cvjdot, outer, kron, trans, herm, prod, prodh, prodj, prodt, prod3, prod4, gemp, gems, cumsum and modulate give, for operands of any shape, storage order, stride, element type and memory layout, exactly the elements their defining formulas state (same products, summed over the same index range), whichever backend is chosen, and write nothing else.',
 ['inputs', 'configurations'], 'all vector lengths up to 2^24, matrix sizes up to 2^20 per dimension (2^10 for kron); dense, strided, reversed and sub-matrix operands in row- and column-major order; real, complex and mixed element types; conjugated and transposed operands; BLAS and generic evaluators',
 'the backend, leading dimension and increment passed to BLAS depend on the strides of both operands; tests use dense operands and compare within a tolerance',
 ['src/vsip/impl/matvec.hpp', 'src/ovxx/lapack/blas.hpp', 'src/vsip/impl/matvec_prod.hpp'],
 [('generic products, gemp, gems, kron, outer, cumsum, modulate', 'src/vsip/impl/matvec.hpp, matvec_prod.hpp'), ('BLAS evaluators: backend choice, leading dimensions, increments', 'src/ovxx/lapack/blas.hpp')],
 claim=('proof', 'the BLAS routines themselves are an assumed contract (their documented definition, including argument legality, checked at each call); floating-point operations are uninterpreted, sums in index order'))

prop('C08', 'Convolution and correlation compute their defining sums over the region of support',
 'Every output element of a 1-D or 2-D Convolution equals the sum over the kernel (built from the coefficients and the symmetry) of kernel times input at the decimated, support-dependent offset, input elements outside their support counting as zero; every output element of a Correlation equals the sum of reference times conjugated input, divided by the documented number of terms when unbiased; output and kernel sizes are the defined ones, and nothing is read or written outside the operands.',
 ['inputs', 'configurations'], 'all kernel and input lengths up to 2^24 (2^20 per dimension in 2-D), every decimation, support region, symmetry and bias, dense, strided and reversed operands, both storage orders, real and complex',
 'the edges of the region of support depend on parity, decimation and the relation between kernel and input length; the tests use a handful of sizes',
 ['src/ovxx/signal/conv.hpp', 'src/ovxx/signal/corr.hpp', 'src/vsip/impl/signal/conv.hpp', 'src/vsip/impl/signal/corr.hpp'],
 [('Convolution: kernel construction, output sizes, full/same/min sums', 'src/ovxx/signal/conv.hpp'), ('Correlation: full/same/min sums and unbiased scaling', 'src/ovxx/signal/corr.hpp')],
 claim=('proof', 'floating-point operations are uninterpreted, sums in index order; 2-D decimation is proved for factors 1, 2 and 3'))
prop('C11', 'Histogram counts every element in exactly the bin its value belongs to',
'A Histogram over [min, max) with num bins counts, for a vector or matrix of any shape, stride and storage order, in bin 0 exactly the elements below min, in bin num-1 exactly those not below max, and in bin b the elements in the b-th of num-2 equal parts of the range; every element is counted exactly once, no count is written outside the bins, a plain call starts from zero and an accumulating call adds to the counts so far. The constructor and both call forms work for every element type, also when the range is narrower than the number of bins.',
['inputs', 'configurations'], 'all lengths up to 2^24 (4096 x 4096 matrices), ranges, bin numbers up to 2^20, float, double and integer elements, dense, strided, reversed and sub-matrix operands',
'values on bin borders, ranges not divisible by the bins and the state between calls are combinations the tests do not sample',
['src/vsip/impl/signal/histo.hpp'],
[('Histogram_bin, Histogram_accumulator, Histogram', 'src/vsip/impl/signal/histo.hpp')],
claim=('proof', 'MPI is replaced by a stand-in reporting one process; floating-point division is uninterpreted (the position of a value inside the range is specified by the same rounded quotient)'))
prop('C09', 'FIR and IIR filters compute their difference equations and carry their state from call to call',
'Fir computes, for every kernel (built from the coefficients and the symmetry), input length and decimation D, exactly y(n) = sum over k of h(k) x(n D - k), over all input since construction or reset if the state is saved and over this input alone otherwise, and returns the number of output samples. Iir computes, for every input length and number of second-order sections, exactly the samples of the cascaded difference equations (the same products, summed in the same order); with state_save, filtering a signal in pieces of any lengths gives the same samples as filtering it at once, with state_no_save every call starts from zero; reset clears the state; a copied or assigned filter continues independently from the state of the original; input shorter or longer than the state and in-place operands are correct, and nothing outside the output is written.',
['inputs', 'histories'], 'all input and kernel lengths up to 2^24, decimations, symmetries, numbers of sections, states and piece lengths; float, double, integer and complex elements; dense, strided and reversed operands',
'state errors appear only after particular sequences of calls, copies and resets',
['src/vsip/impl/signal/fir.hpp', 'src/ovxx/signal/fir.hpp', 'src/vsip/impl/signal/iir.hpp'],
[('Fir backend: kernel, decimated sums, saved input', 'src/ovxx/signal/fir.hpp'), ('Iir operator(), reset, copy, state', 'src/vsip/impl/signal/iir.hpp')],
claim=('proof', 'floating-point operations are uninterpreted; the complex state-saving case is decided by a bounded check'))
prop('C13', 'User-storage blocks hand data over exactly at admit and release, and storage lives exactly as long as it is used',
'Blocks built on user storage (interleaved, split or array format; 1-D, 2-D, 3-D) read at admit(true) exactly the user\'s values into the block and write at release(true) exactly the block\'s values to the user\'s storage, in the user\'s format; admit(false)/release(false) and an already admitted (released) block move nothing; find and rebind return and switch the user pointers; user data beyond the block is never touched. Views share a block by reference count: copies see each other\'s changes, a block lives exactly until its last view is gone, and no allocation is leaked or freed twice.',
['histories', 'inputs'], 'all block sizes up to 2^24 elements, all formats, every sequence of admit, release, rebind of the stated shapes, view copies, assignments, subviews and destruction',
'lifetime and hand-over errors show up only for particular orders of operations',
['src/ovxx/storage/manager.hpp', 'src/ovxx/refcounted.hpp', 'src/vsip/dense.hpp'],
[('storage manager: admit, release, find, rebind', 'src/ovxx/storage/manager.hpp'), ('reference counting', 'src/ovxx/refcounted.hpp'), ('allocator', 'src/ovxx/allocator.hpp')],
claim=('proof', 'MPI is replaced by a stand-in reporting one process; the C++ runtime\'s allocation is modelled (fresh, disjoint, freed once)'))
prop('C16', 'freqswap exchanges the halves of a vector and the quadrants of a matrix',
'For every length and shape, odd or even, out of place or in place, freqswap puts in((i + ceil(m/2)) mod m, (j + ceil(n/2)) mod n) at (i, j), the result has the shape of the operand, a separate operand is left unchanged, and nothing outside the result is written; the one-axis form exchanges the halves of every row or column only.',
['inputs', 'configurations'], 'all vector lengths up to 2^24 and matrix shapes up to 2^20 per dimension, dense, strided and reversed operands, both storage orders, in place and out of place',
'odd sizes in place move elements along cycles; tests sample few sizes and layouts',
['src/vsip/impl/signal/freqswap.hpp'],
[('freqswap, in place and out of place, Freqswap return block', 'src/vsip/impl/signal/freqswap.hpp')],
claim=('proof', 'column-major, transposed and sub-matrix operands are decided by bounded checks'))
prop('C19', 'Element-wise functions and operators compute their defining function of corresponding elements',
'Every element-wise function and operator of the library, with view operands and with scalar operands in any position, gives at every index the defined function of the corresponding elements, computed in the defined result type, for real, complex, mixed-precision, integer and boolean elements; a scalar stands for a view holding that value everywhere.',
['inputs', 'configurations'], 'all vector lengths up to 2^24 and element values; every view/scalar combination of unary, binary and ternary functions',
'element types, argument order and scalar positions multiply into more combinations than tests sample',
['src/ovxx/view/fns_elementwise.hpp', 'src/ovxx/math/scalar.hpp', 'src/ovxx/expr/operations.hpp', 'src/ovxx/view/operators.hpp'],
[('function and operator dispatch', 'src/ovxx/view/fns_elementwise.hpp'), ('scalar functions', 'src/ovxx/math/scalar.hpp')],
claim=('proof', 'floating-point arithmetic and libm functions are uninterpreted (the same function of the same arguments)'))
prop('C12', 'Random number generators produce exactly their defined, reproducible sequences',
'From every state, each number a Rand generator returns (randu, randn, real and complex, portable and not) is the defined function of the linear congruential sequence(s) and advances the state by exactly the numbers it uses; a portable generator starts at its seed, the id-th of k portable generators starts (2^32-1)/k (id-1) steps further with a second sequence of its own; k non-portable generators take turns in one sequence; equal seeds give equal numbers; a vector of random numbers holds the next n numbers in order.',
['inputs', 'histories'], 'all seeds and generator states; 1 to 20 (portable: 1 to 32) processes, all of their ids; all vector lengths up to 2^24',
'the portable generator skips a step only in states a test reaches about once in 2^32 numbers; the splitting of the sequence over processes is arithmetic modulo 2^32 no test recomputes',
['src/vsip/random.hpp'],
[('Rand_base constructor, randu, randn, complex forms', 'src/vsip/random.hpp')],
claim=('proof', 'uniform and normal values are compared as the same rounded operations on the same integers; other numbers of processes are decided by bounded checks'))
prop('C14', 'Direct data access shows the block\'s elements in the requested layout and hands changes back',
'An access to a block\'s data (dda::Data, or ovxx::dda::Rt_data with a run-time layout) reports the size of the block, shows through its pointer and strides exactly the block\'s elements, and obeys the layout asked for (dimension order, unit stride, dense, complex format); whether the library hands out the block\'s own storage or a copy (in storage of its own or in the caller\'s buffer, for which required_buffer_size is enough) makes no difference: what is written through an inout or out access is in the block after sync_out or the end of the access and no other element changes, and sync_in shows what the block holds.',
['inputs', 'configurations'], 'all sizes up to 2^24 (2^20 per dimension in 2-D); dense, strided, reversed and sub-matrix blocks, transposed, row, column, diagonal, real and imaginary views, const and modifiable; row-, column-major, unit-stride, dense, aligned, array, interleaved and split layouts; in, out and inout',
'direct access or copy is chosen from the block type, the layout asked for and the sizes and strides at hand; tests use a handful of dense blocks',
['src/vsip/dda.hpp', 'src/ovxx/dda/accessor.hpp', 'src/ovxx/dda/block_copy.hpp', 'src/ovxx/dda/runtime.hpp', 'src/ovxx/expr/diag.hpp', 'src/ovxx/expr/subset.hpp'],
[('Accessor: direct, copy, maybe-direct, run-time', 'src/ovxx/dda/accessor.hpp'), ('block_copy', 'src/ovxx/dda/block_copy.hpp'), ('Diag, Subset, Sliced ptr/stride', 'src/ovxx/expr')],
claim=('proof', 'device or remote accesses are not covered; a few 3-D accesses are proved in the thorough tier only; MPI is replaced by a stand-in reporting one process'))
