"""prove1.py prog.json proof limit opts-json : run one contract, print one JSON line"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)
import resource
def main():
    import interp, solver
    from execu import Prog
    js, name, limit, opts = sys.argv[1], sys.argv[2], float(sys.argv[3]), json.loads(sys.argv[4])
    t = time.time()
    o = {k: (float(v) if k in ('dec_to', 'pr_to') else int(v)) for k, v in opts.items() if k in ('dec_to', 'pr_to', 'unroll', 'max_steps', 'overflow', 'cases', 'wrap')}
    o['deadline'] = t + limit
    res = {'name': name, 'why': None}
    p = Prog(js)
    E = interp.Exec(p, o)
    status = None
    try:
        ends = E.run_root('vp_proof_' + name)
        res['ends'] = {e if isinstance(e, str) else str(e): ends.count(e) for e in set(ends)}
        if not any(e == 'done' for e in ends): status = 'vacuous'
    except interp.Unsupported as e:
        res['why'] = str(e)[:600]
        status = 'timeout' if 'time limit' in str(e) or 'step limit' in str(e) else 'unsupported'
    except (RecursionError, MemoryError) as e:
        res['why'] = repr(e)[:200]; status = 'timeout'
    except Exception as e:
        import traceback
        res['why'] = 'internal: ' + traceback.format_exc()[-1500:]; status = 'unsupported'
    obls = []
    bad = False; unk = False
    for ob in E.obls:
        ok = not (ob.res.get('sat') or ob.res.get('unknown'))
        d = {'label': ob.label, 'where': ob.where, 'kind': ob.kind, 'fn': (ob.fn or '')[:200], 'ok': ok, 'res': ob.res, 't': round(ob.t, 3)}
        if not ok:
            bad = True
            if ob.model is not None: d['model'] = ob.model.vals
            if ob.goal is not None:
                from terms import show
                d['goal'] = show(ob.goal[0])[:1500]
                d['assumptions'] = [show(c)[:300] for c in ob.goal[1]][:60]
        obls.append(d)
    if any(ob.res.get('sat') for ob in E.obls): status = 'failed'
    elif bad:
        status = 'undecided'      # the solver gave neither a proof nor a model in its time
        res['why'] = 'solver undecided: ' + '; '.join('%s %s' % (o['label'], o['where']) for o in obls if not o['ok'])[:500]
    if status is None: status = 'proved'
    res.update(status=status, obls=obls, time=time.time() - t, solver_time=solver.STATS['time'],
               backend={'z3': solver.STATS['z3'], 'cvc5': solver.STATS['cvc5'], 'syntactic/interval': solver.STATS['quick'], 'induction over folds': solver.STATS['ext']},
               fns=sorted(set((p.fns[k].get('dem') or k) for k in E.fnused if not k.startswith('vp_proof_'))),
               loops=[(a[:200], c) for a, b, c in E.loopinfo], notes=sorted(E.notes), covers=E.covers, steps=E.steps)
    print(json.dumps(res))
    sys.stdout.flush()
    os._exit(0)
if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    th = threading.Thread(target=main); th.start(); th.join()
    os._exit(3)
