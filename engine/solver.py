"""Discharges obligations:  assumptions |- goal   with z3 (then cvc5)."""
import time, os
import z3
from terms import *

STATS = {'queries': 0, 'z3': 0, 'cvc5': 0, 'quick': 0, 'time': 0.0, 'unknown': 0, 'open': 0, 'ext': 0}
FS = {}
def fsort(s):
    if s not in FS: FS[s] = z3.DeclareSort(s)
    return FS[s]
def zsort(s):
    return z3.IntSort() if s == 'i' else z3.BoolSort() if s == 'b' else fsort(s)

class Trans:
    def __init__(self):
        self.memo = {}; self.defs = []; self.fdecl = {}; self.seen = set(); self.names = {}
    def poly(self, x):
        if isinstance(x, int): return z3.IntVal(x)
        r = self.memo.get(x)
        if r is not None: return r
        ts = []
        for m, c in x.t:
            t = None
            for a in m:
                z = self.node(a)
                t = z if t is None else t * z
            if t is None: t = z3.IntVal(c)
            elif c != 1: t = t * z3.IntVal(c) if False else z3.IntVal(c) * t
            ts.append(t)
        r = ts[0] if len(ts) == 1 else z3.Sum(ts)
        self.memo[x] = r
        return r
    def term(self, x):
        if isinstance(x, bool): return z3.BoolVal(x)
        if isinstance(x, (int, Poly)): return self.poly(x)
        if isinstance(x, N): return self.node(x)
        raise Exception('term %r' % (x,))
    def const(self, n):
        return z3.Const('%s!%d' % (n.a[0] if n.k == 'sym' else n.k, n.id), zsort(n.s))
    def bounds(self, n, z):
        if n.s == 'i':
            if n.lo is not None: self.defs.append((n, z >= n.lo))
            if n.hi is not None: self.defs.append((n, z <= n.hi))
    def fn(self, name, ins, out):
        k = (name, tuple(ins), out)
        if k not in self.fdecl:
            self.fdecl[k] = z3.Function('%s_%d' % (name, len(self.fdecl)), *([zsort(i) for i in ins] + [zsort(out)]))
        return self.fdecl[k]
    def node(self, n):
        r = self.memo.get(n)
        if r is not None: return r
        k = n.k; a = n.a
        if k in ('sym', 'bv', 'fold'):
            r = self.const(n); self.bounds(n, r)
        elif k == 'ge0': r = self.poly(a[0]) >= 0
        elif k == 'eq0': r = self.poly(a[0]) == 0
        elif k == 'and': r = z3.And([self.term(y) for y in a])
        elif k == 'or': r = z3.Or([self.term(y) for y in a])
        elif k == 'not': r = z3.Not(self.term(a[0]))
        elif k in ('ite', 'fite'):
            r = z3.If(self.term(a[0]), self.term(a[1]), self.term(a[2]))
        elif k == 'div':
            if isinstance(a[1], int):
                r = self.poly(a[0]) / z3.IntVal(a[1])
            else:
                r = self.const(n); self.bounds(n, r)
                b = self.poly(a[1]); x = self.poly(a[0])
                self.defs.append((n, z3.Implies(b > 0, z3.And(b * r <= x, x - b * r < b))))
                lo, hi = iv(a[0])
                if lo >= 0: self.defs.append((n, z3.Implies(b > 0, z3.And(r >= 0, r <= x))))
        elif k == 'sel':
            f = self.fn('sel_%d' % a[0].id, ['i'], n.s)
            r = f(self.poly(a[1])); self.bounds(n, r)
        elif k == 'fc': r = z3.Const('fc_%d_%d' % a, zsort(n.s))
        elif k == 'fop':
            f = self.fn(a[0], [x.s for x in a[1:]], n.s); xs = [self.node(x) for x in a[1:]]
            r = f(*xs)
            if a[0] in COMM and a[1] is not a[2]: self.defs.append((n, r == f(xs[1], xs[0])))
        elif k == 'fcmp':
            # IEEE comparison: a total order on the values that are not NaN (rank: an order embedding; +0 and -0 share a rank)
            x = self.node(a[1]); y = self.node(a[2])
            nan = self.fn('isnan_' + a[1].s, [a[1].s], 'b'); rank = self.fn('rank_' + a[1].s, [a[1].s], 'i')
            un = z3.Or(nan(x), nan(y))
            if a[0] == 'uno': r = un
            elif a[0] == 'olt': r = z3.And(z3.Not(un), rank(x) < rank(y))
            elif a[0] == 'ole': r = z3.And(z3.Not(un), rank(x) <= rank(y))
            elif a[0] == 'oeq': r = z3.And(z3.Not(un), rank(x) == rank(y))
            else: raise Exception('fcmp ' + a[0])
        elif k == 'feq': r = self.node(a[0]) == self.node(a[1])
        elif k == 'i2f':
            r = self.fn('i2f', ['i'], n.s)(self.poly(a[0]))
        elif k == 'uf':
            args = a[1:]
            so = [sort_of(x) for x in args]
            if args: r = self.fn('uf_' + a[0], so, n.s)(*[self.term(x) for x in args])
            else: r = z3.Const('uf_' + a[0], zsort(n.s))
            self.bounds(n, r)
        else: raise Exception('node ' + k)
        self.memo[n] = r
        return r

_cache = {}
SIMPLE = 0.5
RL = 2e6
DEBUG = os.environ.get('VP_DEBUG')

class Model:
    def __init__(self, vals): self.vals = vals
    def __repr__(self): return ', '.join('%s=%s' % kv for kv in sorted(self.vals.items()))

# ---- mixed-radix lemma:  c*X + Y = 0  and  -c < Y < c   ==>   X = 0     (instances added for the equalities of a query)
_eqmemo = {}
def _eqs(x):
    """the eq0 atoms occurring in x"""
    if x is None or isinstance(x, (int, str, float, bool)): return frozenset()
    r = _eqmemo.get(x)
    if r is not None: return r
    r = set()
    if isinstance(x, Poly):
        for m, c in x.t:
            for a in m: r |= _eqs(a)
    elif isinstance(x, N):
        if x.k == 'eq0': r.add(x.a[0])
        if x.k not in ('sym', 'bv', 'arr', 'fold'):
            for y in x.a: r |= _eqs(y)
    elif isinstance(x, tuple):
        for y in x: r |= _eqs(y)
    r = frozenset(r)
    try: _eqmemo[x] = r
    except TypeError: pass
    return r
def _radix(p, out, depth):
    if depth == 0 or not isinstance(p, Poly) or len(p.t) > 24: return
    cand = {}
    for m, c in p.t:
        if len(m) >= 2:
            for a in set(m): cand[a] = cand.get(a, 0) + 1
    # the inner radix divides every non-linear monomial
    nl = sum(1 for m, c in p.t if len(m) >= 2)
    if not nl: return
    for a, n in sorted(cand.items(), key=lambda kv: kv[0].id):
        if n != nl and depth < 3: continue
        if a.lo is not None and a.lo < 0: continue
        X = {}; Y = {}
        for m, c in p.t:
            if a in m:
                l = list(m); l.remove(a); X[tuple(l)] = c
            else: Y[m] = c
        from terms import _mkpoly
        x = _mkpoly(X); y = _mkpoly(Y)
        if isinstance(x, int): continue
        ap = atom(a)
        out.append(bimp(band(eq0(p), lt(y, ap), lt(neg(y), ap)), eq0(x)))
        _radix(x, out, depth - 1)
def radix_lemmas(fs):
    out = []; seen = set()
    for f in fs:
        for p in sorted(_eqs(f), key=lambda x: x.id if isinstance(x, Poly) else -1):
            if p in seen or not isinstance(p, Poly): continue
            seen.add(p)
            if max(len(m) for m, c in p.t) < 3: continue
            _radix(p, out, 3)
            if len(out) > 60: return out
    return [x for x in out if isinstance(x, N)]

def _check(assump, goal, timeout, want_model=False, strat=0):
    """is (assump and not goal) unsat?  -> 'proved' / ('sat', model) / 'unknown'"""
    T = Trans()
    zs = [T.term(x) for x in list(assump) + radix_lemmas(list(assump) + [goal])]
    g = T.term(goal)
    t = time.time()
    STATS['queries'] += 1
    # the incremental core first (fast on most queries), then the default tactic
    for mk_, to in ([(z3.SimpleSolver, min(timeout, SIMPLE))] if strat == 0 else []) + \
            [(z3.Solver if strat == 0 else lambda: z3.SolverFor('QF_UFNIA'), timeout)]:
        s = mk_()
        # (a deterministic limit; the clock only as a safety net)
        s.set('rlimit', int(to * RL)); s.set('timeout', int(to * 12000))
        for z in zs: s.add(z)
        s.add(z3.Not(g))
        for n, d in T.defs: s.add(d)
        r = s.check()
        if r != z3.unknown: break
    STATS['time'] += time.time() - t
    if r == z3.unsat: return 'proved', None
    if r == z3.sat:
        m = s.model()
        vals = {}
        for n, z in T.memo.items():
            if isinstance(n, N) and n.k == 'sym' and n.s in ('i', 'b'):
                v = m.eval(z, model_completion=True)
                vals[n.a[0]] = str(v)
        return 'sat', Model(vals)
    return 'unknown', None

def _cvc5(assump, goal, timeout):
    import cvc5
    T = Trans()
    s = z3.Solver()
    for x in assump: s.add(T.term(x))
    s.add(z3.Not(T.term(goal)))
    for n, d in T.defs: s.add(d)
    txt = s.to_smt2()
    t = time.time()
    STATS['queries'] += 1
    try:
        sl = cvc5.Solver()
        sl.setOption('tlimit-per', str(int(timeout * 1000)))
        sl.setLogic('ALL')
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            o = c.invoke(sl, sm)
            o = str(o).strip()
            if o in ('sat', 'unsat', 'unknown'): res = o
    except Exception as e:
        res = None
    STATS['time'] += time.time() - t
    return 'proved' if res == 'unsat' else res or 'unknown'

def conj(pc):
    out = []
    for x in pc:
        if x is True: continue
        if isinstance(x, N) and x.k == 'and': out.extend(x.a)
        else: out.append(x)
    return out

def coi(assump, goal, depth):
    """assumptions connected to the goal through symbols within `depth` hops"""
    cur = set(fv(goal)); sel_ = []; rest = list(assump)
    for _ in range(depth):
        add_ = [x for x in rest if not isinstance(x, bool) and not fv(x).isdisjoint(cur)]
        if not add_: break
        for x in add_: cur |= fv(x)
        sel_ += add_
        s = set(add_)
        rest = [x for x in rest if x not in s]
    return sel_

def simp_by(goal, pcset):
    """cheap: replace sub-conditions known from the assumptions"""
    if isinstance(goal, bool): return goal
    if goal in pcset: return True
    if bnot(goal) in pcset: return False
    if goal.k == 'and':
        return band(*[simp_by(y, pcset) for y in goal.a])
    if goal.k == 'or':
        return bor(*[simp_by(y, pcset) for y in goal.a])
    return goal

def lin_quick(goal, assump):
    """goal p>=0 (or p==0): p - f has provably non-negative interval for some assumption f>=0"""
    if goal.k != 'ge0': return False
    p = goal.a[0]
    for x in assump:
        if not isinstance(x, N): continue
        if x.k == 'ge0':
            if iv(sub(p, x.a[0]))[0] >= 0: return True
        elif x.k == 'eq0':
            if iv(sub(p, x.a[0]))[0] >= 0 or iv(add(p, x.a[0]))[0] >= 0: return True
    return False

def prove(pc, goal, timeout=5.0, effort=1):
    """-> ('proved'|'sat'|'unknown', model)"""
    if goal is True: return 'proved', None
    assump = conj(pc)
    if any(x is False for x in assump): return 'proved', None
    pcset = set(assump)
    goal = simp_by(goal, pcset)
    if goal is True: STATS['quick'] += 1; return 'proved', None
    if isinstance(goal, N) and goal.k == 'and':
        res = 'proved'; mod_ = None
        for y in goal.a:
            r, m = prove(pc, y, timeout, effort)
            if r == 'sat': return r, m
            if r == 'unknown': res = 'unknown'
        return res, None
    key = (goal, frozenset(pcset), effort > 0)
    c = _cache.get(key)
    if c is not None and (c[0] != 'unknown' or c[2] >= timeout * effort):
        if c[0] == 'unknown': STATS['open'] += 1
        return c[0], c[1]
    r, m = _prove(assump, goal, timeout, effort)
    _cache[key] = (r, m, timeout * effort)
    if r == 'unknown': STATS['open'] += 1
    return r, m

def _nofeq(fs):
    return [x for x in fs if not (isinstance(x, N) and _has_feq(x))]
_hf = {}
def _has_feq(x):
    if not isinstance(x, N): return False
    r = _hf.get(x)
    if r is None:
        r = _hf[x] = x.k == 'feq' or (x.k in ('and', 'or', 'not') and any(_has_feq(y) for y in x.a))
    return r
def _suff(goal):
    """a sufficient condition without float terms:  feq(fite(c,a,b), fite(d,a,b))  <==  c <=> d"""
    if not (isinstance(goal, N) and goal.k == 'feq'): return None
    a, b = goal.a
    if isinstance(a, N) and isinstance(b, N) and a.k == 'fite' and b.k == 'fite':
        if a.a[1] is b.a[1] and a.a[2] is b.a[2]: return band(bimp(a.a[0], b.a[0]), bimp(b.a[0], a.a[0]))
        if a.a[1] is b.a[2] and a.a[2] is b.a[1]: return band(bimp(a.a[0], bnot(b.a[0])), bimp(bnot(b.a[0]), a.a[0]))
    return None

def _prove(assump, goal, timeout, effort):
    if isinstance(goal, N) and lin_quick(goal, assump):
        STATS['quick'] += 1; return 'proved', None
    sg = _suff(goal)
    if sg is not None and sg is not goal:
        if sg is True: STATS['quick'] += 1; return 'proved', None
        r = prove(_nofeq(assump), sg, timeout, 0 if effort == 0 else effort)
        if r[0] == 'proved': return r
    nontriv = isinstance(goal, N)
    if DEBUG: t0 = time.time()
    last = ('unknown', None)
    if nontriv:
        c1 = coi(assump, goal, 1)
        c9 = coi(assump, goal, 50)
        levels = [c1] if len(c1) == len(c9) else [c1, c9]
    else:
        levels = [list(assump)]
    if effort == 0:
        # decision query: only full, short
        r = ('unknown', None)
        if len(levels) > 1:
            r = _check(levels[0], goal, min(timeout, 0.5))
            if r[0] == 'proved': return r
        r2 = _check(levels[-1], goal, timeout)
        if DEBUG and time.time() - t0 > 1: print('   slow decide %.1fs %s %s' % (time.time() - t0, r2[0], show(goal)[:200]))
        return r2
    for i, lv in enumerate(levels):
        r = _check(lv, goal, timeout if i == len(levels) - 1 else min(timeout, 2.0))
        if r[0] == 'proved': STATS['z3'] += 1; return r
        last = r
    if last[0] == 'sat':
        return last
    # harder: alternative strategies
    r = _check(levels[-1], goal, timeout, strat=1)
    if r[0] != 'unknown': STATS['z3'] += 1; return r
    r = _cvc5(levels[-1], goal, timeout)
    if r == 'proved': STATS['cvc5'] += 1; return r, None
    if len(levels) > 1:
        r = _cvc5(levels[0], goal, timeout)
        if r == 'proved': STATS['cvc5'] += 1; return r, None
    r = _check(levels[-1], goal, timeout * 3, strat=0)
    if r[0] == 'unknown': STATS['unknown'] += 1
    if DEBUG and time.time() - t0 > 1: print('   slow prove %.1fs %s %s' % (time.time() - t0, r[0], show(goal)[:300]))
    return r
