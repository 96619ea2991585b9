#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]      decide one property against /repo's working tree
   check.py setup                                   build the exporter
   check.py replay <replay file>                    rerun a reported violation
   check.py list <property>                         proofs of a property
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
PY = shutil.which('python3-vt') or sys.executable
IRX = os.path.join(V, 'build', 'irx')
MPI = '/usr/lib/x86_64-linux-gnu/openmpi'
INC = ['-I%s/_build/src' % REPO, '-I%s/src' % REPO, '-I%s/support' % REPO, '-DOMPI_SKIP_MPICXX', '-I%s/include' % MPI,
       '-I%s/include/openmpi' % MPI, '-I%s/proofs' % V, '-I%s/engine' % V]
LIBS = ['-L%s/lib' % MPI, '-lmpi', '-lfftw3f', '-lfftw3', '-lopenblas', '-lpthread', '-ldl']
CLANG = ['clang++', '-std=gnu++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fcx-limited-range', '-w', '-gline-tables-only', '-emit-llvm', '-c']
GXX = ['g++', '-std=gnu++14', '-O1', '-w', '-g1', '-fsanitize=address,bounds', '-fno-omit-frame-pointer']
NCPU = int(os.environ.get('VP_JOBS', min(8, os.cpu_count() or 8)))

def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)

def setup():
    os.makedirs(os.path.dirname(IRX), exist_ok=True)
    src = os.path.join(V, 'engine', 'irx.cpp')
    if os.path.exists(IRX) and os.path.getmtime(IRX) > os.path.getmtime(src): return
    tmp = IRX + '.%d' % os.getpid()
    r = run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/include/llvm-18', '-I/usr/include/llvm-c-18', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    if r.returncode: print(r.stderr[-3000:]); sys.exit(2)
    os.rename(tmp, IRX)

# ------------------------------------------------------------------ the proofs of a property
def tus(pid):
    d = os.path.join(V, 'proofs')
    return sorted(f for f in os.listdir(d) if f.startswith(pid.lower() + '_') and f.endswith('.cpp'))
def scan(tu):
    """[(name, mode, opts)] of the contracts in a translation unit; mode: proof | bounded"""
    out = []
    txt = open(os.path.join(V, 'proofs', tu)).read()
    opts = {}
    for m in re.finditer(r'^//@\s*(\S+?):\s*(.*)$', txt, re.M):
        o = opts.setdefault(m.group(1), {})
        for kv in m.group(2).split():
            k, _, v = kv.partition('=')
            o[k] = v or '1'
    for m in re.finditer(r'^\s*(VP_PROOF|VP_BOUNDED)\(([A-Za-z0-9_]+)\)', txt, re.M):
        o = dict(opts.get('*', {})); o.update(opts.get(m.group(2), {}))
        out.append((m.group(2), 'proof' if m.group(1) == 'VP_PROOF' else 'bounded', o))
    # contracts generated by macros:  #define M(name, ..) VP_PROOF(prefix_##name) .. , possibly through other macros
    macros = {}
    for m in re.finditer(r'^#define (\w+)\((\w+)[^)]*\)((?:[^\\\n]|\\\n|\\.)*)', txt, re.M):
        arg, body, gen = m.group(2), m.group(3), []
        tok = r'\b(\w+)\((?=[\w#]*\b%s\b)((?:\w*##)*\b%s\b(?:##\w*)*)[,)]' % (arg, arg)
        for u in re.finditer(tok, body):
            i = u.group(2).split('##').index(arg)
            pre, suf = ''.join(u.group(2).split('##')[:i]), ''.join(u.group(2).split('##')[i+1:])
            gen.append((u.group(1), pre, suf))
        macros[m.group(1)] = gen
    def expand(mac, arg, depth=0):
        if mac in ('VP_PROOF', 'VP_BOUNDED'): yield mac, arg; return
        if depth < 8:
            for m2, pre, suf in macros.get(mac, ()):
                yield from expand(m2, pre + arg + suf, depth + 1)
    for u in re.finditer(r'^(\w+)\((\w+)(?=\s*[,)])', txt, re.M):
        if u.group(1) in ('VP_PROOF', 'VP_BOUNDED'): continue
        for mac, n in expand(u.group(1), u.group(2)):
            o = dict(opts.get('*', {})); o.update(opts.get(n, {}))
            out.append((n, 'proof' if mac == 'VP_PROOF' else 'bounded', o))
    return out

class Fatal(Exception): pass

def compile_ir(tu, wd):
    b = os.path.join(wd, tu[:-4])
    r = run(CLANG + INC + ['-DVP_VERIFY', os.path.join(V, 'proofs', tu), '-o', b + '.bc'])
    if r.returncode: raise Fatal('the contracts of %s do not compile against /repo:\n%s' % (tu, r.stderr[:4000]))
    r = run([IRX, b + '.json', b + '.bc'])
    if r.returncode: raise Fatal('export of %s failed: %s' % (tu, r.stderr[-2000:]))
    return b + '.json'
def compile_driver(wd):
    o = os.path.join(wd, 'native.o')
    r = run(GXX + INC + ['-c', os.path.join(V, 'engine', 'native.cpp'), '-o', o])
    if r.returncode: raise Fatal('native driver: ' + r.stderr[:3000])
    return o
def compile_native(tu, wd):
    b = os.path.join(wd, tu[:-4])
    with open(b + '.e.cpp', 'w') as f:
        f.write('#define VP_NATIVE 1\n#include "%s"\ntypedef void (*proof_t)(); struct Entry { char const *name; proof_t fn; };\nextern Entry vp_entries[]; Entry vp_entries[] = {\n' % os.path.join(V, 'proofs', tu))
        for n, m, o in scan(tu): f.write('{"%s", vp_proof_%s},\n' % (n, n))
        f.write('{0,0}};\n')
    r = run(GXX + INC + ['-c', b + '.e.cpp', '-o', b + '.o'])
    if r.returncode: raise Fatal('native build of %s: %s' % (tu, r.stderr[:4000]))
    return b + '.o'
def link_native(tu, wd, drv):
    b = os.path.join(wd, tu[:-4])
    r = run(GXX + [b + '.o', drv, '-o', b + '.nat'] + LIBS)
    if r.returncode: raise Fatal('native link of %s: %s' % (tu, r.stderr[:4000]))
    return b + '.nat'

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

def native(nat, name, seed, trials, secs, over=()):
    try:
        r = run([nat, name, str(seed), str(trials), str(secs)] + list(over), timeout=secs + 150, env=ENV)
    except subprocess.TimeoutExpired:
        return {'error': 'timeout'}
    for l in reversed(r.stdout.strip().splitlines()):
        if l.startswith('{'):
            try: d = json.loads(l)
            except Exception: continue
            d['stderr'] = r.stderr[-6000:]
            return d
    return {'error': 'no result: rc=%s %s' % (r.returncode, r.stderr[-800:])}

def deduct(js, name, limit, opts):
    try:
        r = run([PY, os.path.join(V, 'engine', 'prove1.py'), js, name, str(limit), json.dumps(opts)], timeout=limit * 1.3 + 60, env=dict(os.environ, PYTHONHASHSEED='0'))
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'why': 'hard time limit', 'obls': [], 'time': limit}
    try: return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {'status': 'error', 'why': 'prover process failed (rc %s): %s' % (r.returncode, (r.stderr or '')[-1500:]), 'obls': [], 'time': 0}

def load_known():
    known = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            m = re.match(r'known: property=(\S+) proof=(\S+) label="([^"]*)"(?: where=(\S+))?\s+(.*)', l)
            if m: known.append(m.groups())
    return known

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    setup()
    files = tus(pid)
    if not files: print('no contracts for', pid); return 2
    budget = 780 if tier == 'quick' else 3300
    wd = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    rdir = os.path.join(V, 'replay', pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    try:
        return check_(pid, tier, seed, files, wd, rdir, t0, budget)
    except Fatal as e:
        print('ERROR property=%s %s' % (pid, e)); return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def check_(pid, tier, seed, files, wd, rdir, t0, budget):
    only = os.environ.get('VP_ONLY', '').split(',') if os.environ.get('VP_ONLY') else None
    known = [k for k in load_known() if k[0] == pid]
    scale = float(os.environ.get('VP_SCALE', '1'))
    nat_secs = 2.0 if tier == 'quick' else 20.0
    R = {}          # (tu, proof) -> record
    fatals = []
    with ThreadPoolExecutor(NCPU) as ex:
        fd = ex.submit(compile_driver, wd)
        fir = {ex.submit(compile_ir, tu, wd): tu for tu in files}
        fnat = {ex.submit(compile_native, tu, wd): tu for tu in files}
        jobs = {}
        def sub_native(tu, nat):
            for n, m, o in scan(tu):
                if only and n not in only: continue
                secs = nat_secs * (3 if m == 'bounded' else 1)
                if 'secs' in o: secs = float(o['secs']) * (1 if tier == 'quick' else 8)
                if o.get('native') == '0': continue
                f = ex.submit(native, nat, n, seed, int(o.get('trials', 10**7)), secs); jobs[f] = ('nat', tu, n)
        pend = set(fir) | set(fnat)
        natbin = {}
        for f in as_completed(list(fir)):
            tu = fir[f]
            js = f.result()
            for n, m, o in sorted(scan(tu), key=lambda x: -float(x[2].get('first', 0))):
                if only and n not in only: continue
                R[tu, n] = {'tu': tu, 'name': n, 'mode': m, 'opts': o}
                if m != 'proof': continue
                lim = float(o.get('limit', 120)) * scale
                if o.get('deduct') == 'thorough' and tier == 'quick':
                    R[tu, n]['skipped'] = True; continue
                g = ex.submit(deduct, js, n, lim, o); jobs[g] = ('ded', tu, n)
        drv = fd.result()
        for f in as_completed(list(fnat)):
            tu = fnat[f]; f.result()
            natbin[tu] = link_native(tu, wd, drv)
            sub_native(tu, natbin[tu])
        for f in as_completed(list(jobs)):
            k, tu, n = jobs[f]
            R[tu, n][k] = f.result()
        # retry proofs that ran out of time, alone on the machine
        for key, r in R.items():
            d = r.get('ded')
            if d and d['status'] in ('timeout', 'error', 'undecided') and time.time() - t0 < budget * (0.6 if d['status'] == 'undecided' else 0.25):
                if d['status'] == 'undecided': r['opts']['pr_to'] = '60'
                lim = min(float(r['opts'].get('limit', 120)) * 2 * scale, max(30, budget - (time.time() - t0)))
                r['ded'] = deduct(os.path.join(wd, r['tu'][:-4] + '.json'), r['name'], lim, r['opts'])
        # a failed obligation: look for a failing input (the model's values first, then a longer search)
        for key, r in sorted(R.items()):
            d = r.get('ded')
            if d and d['status'] in ('failed', 'undecided') and not r.get('nat', {}).get('failed') and r['tu'] in natbin:
                for o in d['obls']:
                    if o.get('model'):
                        ov = ['%s=%s' % kv for kv in o['model'].items() if re.match(r'^-?\d+$', str(kv[1])) and not kv[0].startswith(('addr@', '@'))]
                        x = native(natbin[r['tu']], r['name'], seed, 40, 10, ov)
                        if x.get('failed'): r['nat'] = x; r['over'] = ov; break
                if not r.get('nat', {}).get('failed') and time.time() - t0 < budget - 60:
                    x = native(natbin[r['tu']], r['name'], seed + 1000, 10**7, 20 if tier == 'quick' else 120)
                    if x.get('failed'): r['nat'] = x; r['seed'] = seed + 1000
    return report(pid, tier, seed, R, rdir, t0, known, files)

def norm(s): return re.sub(r'\s+', ' ', s or '')

def report(pid, tier, seed, R, rdir, t0, known, files):
    nob = ndis = 0; backend = {}; solver_t = 0.0; fns = {}; loops = []; notes = set(); covers = {}; unproved = []; bounded = []; samples = []
    viol = []; found_known = []
    infra = []
    proofs_ok = proofs_n = 0
    trials = 0
    for (tu, n), r in sorted(R.items()):
        d = r.get('ded'); x = r.get('nat') or {}
        trials += x.get('accepted', 0) or 0
        if d:
            proofs_n += 1
            for o in d['obls']:
                nob += 1; ndis += o['ok']
            solver_t += d.get('solver_time', 0)
            for k, v in (d.get('backend') or {}).items(): backend[k] = backend.get(k, 0) + v
            for k in d.get('fns', []): fns[k] = fns.get(k, 0) + 1
            loops += d.get('loops', [])
            notes |= set(d.get('notes', [])); 
            for k, v in d.get('covers', {}).items(): covers['%s/%s' % (n, k)] = v
            if d['status'] == 'proved': proofs_ok += 1
            else: unproved.append({'proof': n, 'status': d['status'], 'why': d.get('why') or [o['label'] for o in d['obls'] if not o['ok']][:5]})
            samples.append({'contract': n, 'status': d['status'], 'obligations': len(d['obls']), 'seconds': round(d.get('time', 0), 2)})
        if r['mode'] == 'bounded' or r.get('skipped') or (d and d['status'] in ('timeout', 'unsupported', 'error', 'undecided')):
            bounded.append({'contract': n, 'accepted_inputs': x.get('accepted', 0), 'distinct': x.get('distinct', 0),
                            'bound': 'sizes at most 40 (mostly below 10), seeded inputs', 'why': 'declared' if r['mode'] == 'bounded' else 'deduction run in the thorough tier only' if r.get('skipped') else d['status']})
        if x.get('error'): infra.append('%s: %s' % (n, x['error']))
        if d and d['status'] == 'vacuous': infra.append('%s: preconditions are contradictory' % n)
        if x and not x.get('error') and not x.get('accepted') and not x.get('failed') and r['opts'].get('native') != '0':
            infra.append('%s: no native input satisfied the preconditions' % n)
        # ---- verdicts
        def is_known(label, where):
            for k in known:
                if k[1] == n and k[2] in norm(label) and (not k[3] or k[3] in (where or '')): return k
            return None
        def emit(label, where, ninput, payload):
            k = is_known(label, where)
            if k:
                found_known.append((n, k[4])); return
            path = os.path.join(rdir, '%s_%d.json' % (n, len(viol)))
            payload.update({'property': pid, 'contract': n, 'tu': tu, 'obligation': label, 'where': where,
                            'rerun': 'python3 %s replay %s' % (os.path.join(V, 'check.py'), path)})
            json.dump(payload, open(path, 'w'), indent=1)
            viol.append((n, path, ninput, label, where))
        failed_native = x.get('failed')
        if failed_native:
            emit(x['label'], '', False, {'kind': 'failing input on the real code', 'inputs': x['inputs'], 'trial': x['trial'], 'seed': r.get('seed', seed),
                 'overrides': r.get('over', []), 'stderr': x.get('stderr', ''), 'failed_obligations': [o for o in (d or {}).get('obls', []) if not o['ok']][:10]})
        if d and d['status'] == 'failed':
            for o in d['obls']:
                if o['ok']: continue
                if failed_native and not is_known(o['label'], o['where']): break   # already reported with an input
                emit(o['label'], o['where'], True, {'kind': 'failed obligation', 'verifier_output': o, 'inputs': None})
                if not is_known(o['label'], o['where']): break
        if d and d['status'] == 'unsupported' and r['opts'].get('strict', '1') == '1' and not failed_native and '--':
            pass
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': nob, 'discharged': ndis,
              'checker_cmd': 'python3 check.py %s --tier %s' % (pid, tier),
              'trusted_base': ['clang 18 front end (C++ to LLVM IR, no optimisation passes)', 'the verifier in /verif/engine (IR semantics, memory model, loop-contract inference)',
                               'z3 %s / cvc5' % z3v(), 'models of libc/libstdc++ primitives (malloc, free, memcpy, memset, exceptions, math functions as uninterpreted)'],
              'contracts': proofs_n, 'contracts_proved': proofs_ok,
              'functions_under_contract': len(fns), 'functions': sorted(fns)[:400],
              'back_ends': backend, 'solver_seconds': round(solver_t, 1),
              'loop_invariants_inferred_and_proved': len(loops), 'loops': sorted(set(l[0][:160] + ' : trip count ' + str(l[1])[:60] for l in loops))[:60],
              'reachability_covers': covers, 'not_proved': unproved, 'bounded_stand_ins': bounded,
              'native_cross_check_inputs': trials, 'samples': samples[:80]},
          'assumptions': BASE_ASSUME + sorted(notes), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for n, k in sorted(set(found_known)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d contracts, %d proved, %d obligations (%d discharged), %d bounded stand-ins, %d native inputs, %.0f s' %
          (pid, proofs_n, proofs_ok, nob, ndis, len(bounded), trials, time.time() - t0))
    for u in unproved: print('  not proved:', u['proof'], u['status'], str(u['why'])[:300])
    for i in infra: print('  note:', i)
    for n, path, ninput, label, where in viol:
        print('  contract %s: %s %s' % (n, label, where))
    for n, path, ninput, label, where in viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, path, ' no-failing-input-found' if ninput else ''))
    if viol: return 1
    if any(r.get('nat', {}).get('error') for r in R.values()): return 2
    return 0
def z3v():
    try:
        return run([PY, '-c', 'import z3;print(z3.get_version_string())']).stdout.strip()
    except Exception: return ''
BASE_ASSUME = ['floating-point operations are uninterpreted except for commutativity and exact identities (a proof shows that the same operations are applied to the same operands in the stated order)',
               'allocations are smaller than 2^47 bytes and do not fail unless stated', 'no loop runs more than 2^48 iterations',
               'type-based aliasing and pointer-comparison rules of C++ are not checked', 'single thread (no data races)',
               'sizes bounded only by the preconditions of each contract (2^20..2^24 elements per dimension)']

def replay(path):
    d = json.load(open(path))
    tu = d['tu']; wd = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        setup()
        if d.get('inputs') is not None:
            drv = compile_driver(wd); compile_native(tu, wd); nat = link_native(tu, wd, drv)
            x = native(nat, d['contract'], d['seed'], 40 if d['overrides'] else 1, 30, d['overrides'] + ([] if d['overrides'] else ['@trial=%d' % d['trial']]))
            print(json.dumps(x, indent=1)); return 1 if x.get('failed') else 0
        js = compile_ir(tu, wd)
        x = deduct(js, d['contract'], 600, dict([o for n, m, o in scan(tu) if n == d['contract']][0]))
        print(json.dumps({'status': x['status'], 'why': x.get('why'), 'failed': [o for o in x['obls'] if not o['ok']]}, indent=1))
        return 1 if x['status'] == 'failed' else 0
    finally: shutil.rmtree(wd, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == 'setup': setup(); sys.exit(0)
    if a[0] == 'replay': sys.exit(replay(a[1]))
    if a[0] == 'list':
        for tu in tus(a[1]):
            for s in scan(tu): print(tu, *s)
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    sys.exit(check(a[0], tier))
