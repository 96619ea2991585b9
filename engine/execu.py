"""Symbolic executor for the exported IR: generates and discharges obligations."""
import json, sys, time, os
from terms import *
from mem import *
import solver
from solver import prove

DBG = os.environ.get('VP_TRACE')
ASSUME_ITER = 1 << 60

def replace_atoms(goal, rep):
    memo = {}
    def R(x):
        if isinstance(x, (int, bool, str, float)) or x is None: return x
        if isinstance(x, tuple): return tuple(R(y) for y in x)
        if x in memo: return memo[x]
        if isinstance(x, Poly):
            r = 0
            for m, c in x.t:
                t = c
                for y in m:
                    z = R(y); t = mul(t, atom(z) if isinstance(z, N) else z)
                r = add(r, t)
        elif x in rep:
            r = rep[x]
            if x.s == 'i' and isinstance(r, N): r = atom(r)
        elif x.k in ('sym', 'bv', 'arr', 'fc'): r = x
        elif x.k == 'fold': r = x
        else: r = rebuild(x, R)
        memo[x] = r
        return r
    return R(goal)

class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = j['functions']; self.globs = j['globals']; self.types = j['types']
        for name, f in self.fns.items():
            f['name'] = name
            if 'blocks' in f:
                f['hdr'] = {}
                for l in f['loops']:
                    l['set'] = set(l['blocks']); f['hdr'][l['h']] = l
    def size(self, t): return self.types[t].get('size', 0)

class Obl:
    __slots__ = ('label', 'where', 'kind', 'res', 'model', 't', 'goal', 'fn')
    def __init__(s, label, where, kind): s.label = label; s.where = where; s.kind = kind; s.res = None; s.model = None; s.t = 0; s.goal = None; s.fn = None

class Engine:
    def __init__(self, prog, opts=None):
        self.p = prog; self.opts = opts or {}
        self.obls = []; self.oblidx = {}
        self.collect = True
        self.genread = {}
        self.covers = {}
        self.fnused = {}
        self.notes = set()
        self.globobj = {}
        self.root = None
        self.max_steps = self.opts.get('max_steps', 3000000)
        self.deadline = self.opts.get('deadline')
        self.dec_to = self.opts.get('dec_to', 1.0)
        self.pr_to = self.opts.get('pr_to', 10.0)
        self.inloop = 0
        self.loopinfo = []
        self.typeids = {}
        self.arrays = {}
        self.arrbounds = {}
        self.inputs = []
        self.fpshare = {}
        self.contracts = {}
        self.used_contracts = set()
        self.idcount = {}
        self.steps = 0
        self.stop_on_fail = False

    # ------------------------------------------------------------ obligations
    def where(self, st, ins=None):
        f = st.frames[-1]
        l = None
        if ins is None and f.ip is not None:
            b = f.fn['blocks'][f.blk]
            ins = b[min(f.ip, len(b) - 1)]
        if ins: l = ins.get('l')
        return '%s:%s' % (l[0], l[1]) if l else f.fn['name']
    def check(self, st, cond, label, kind='assert'):
        """obligation: pc |- cond ; afterwards cond is assumed"""
        if any(c is False for c in st.pc): return
        if cond is True:
            if self.collect: self.record(st, label, kind, 'proved', None, 0, cond)
            return
        if not self.collect:
            st.assume_obl(cond); return
        t = time.time()
        r, m = self.prove(st, cond, self.pr_to)
        if r != 'proved' and self.genread:
            c2 = self.ungen(st, cond)
            if c2 is not cond:
                st2 = st.fork()
                for x in solver.conj(st.pc):
                    if isinstance(x, N): st2.assume(self.ungen(st, x))
                r2, m2 = self.prove(st2, c2, self.pr_to)
                if r2 == 'proved': r, m = r2, m2
        self.record(st, label, kind, r, m, time.time() - t, cond)
        st.assume_obl(cond)
    def ungen(self, st, cond):
        for i in range(4 if self.genread else 0):      # (nested loops)
            c = self.ungen1(st, cond)
            if c is cond or isinstance(c, bool): return c
            cond = c
        return cond
    def ungen1(self, st, cond):
        """generic content of array accumulators in an obligation, by its closed form (the induction hypothesis)"""
        m = {}
        for n in atoms_of(cond) if self.genread else ():
            if n.k == 'sel' and n.a[0] in self.genread:
                m[n] = self.genread[n.a[0]](st, n.a[1])
        for n in fv(cond) if self.genread else ():
            if n in self.genread and n.k == 'sym': m.update(self.genread[n]())
        q = {n: v for n, v in m.items() if n.k == 'sel'}
        if q: cond = replace_atoms(cond, q)
        m = {n: v for n, v in m.items() if n.k != 'sel'}
        return subst(cond, m) if m else cond
    def record(self, st, label, kind, r, m, dt, cond):
        wh = self.where(st)
        key = (label, wh, kind)
        o = self.oblidx.get(key)
        if o is None:
            o = Obl(label, wh, kind); self.oblidx[key] = o; self.obls.append(o)
            o.fn = st.frames[-1].fn.get('dem', '')
            o.res = {'proved': 0, 'sat': 0, 'unknown': 0}
        o.res[r] = o.res.get(r, 0) + 1
        o.t += dt
        if r != 'proved' and o.goal is None:
            o.goal = (cond, st.pc); o.model = m
            if DBG: print('  OBL FAIL', r, label, wh, show(cond)[:400], '\n     MODEL', m)
    def fail(self, st, label, kind='assert'):
        self.check(st, False, label, kind)
    def prove(self, st, cond, to=None):
        c = solver.simp_by(cond, st.pcset)
        if c is True: return 'proved', None
        o0 = solver.STATS['open']
        r, m = self.prove1(st, c, to)
        if r == 'proved' or solver.STATS['open'] == o0: return r, m
        # some lemma was left open by the solver: once more with more time; what it still leaves open is not a failure
        sv = self.pr_to, self.dec_to
        self.fpshare = {k: v for k, v in self.fpshare.items() if v}
        try:
            self.pr_to *= 2; self.dec_to *= 2
            o0 = solver.STATS['open']
            r, m = self.prove1(st, c, to and to * 2)
        finally: self.pr_to, self.dec_to = sv
        if r == 'sat' and solver.STATS['open'] != o0: r = 'unknown'
        return r, m
    def prove1(self, st, c, to=None):
        r, m = solver.prove(st.pc, c, to or self.pr_to)
        if r != 'proved' and st.all and self.try_qf(st, c): return 'proved', None
        if r != 'proved' and self.try_ext(st, c): return 'proved', None
        if r != 'proved' and self.try_ind(st, c): return 'proved', None
        if r != 'proved':
            c2 = self.pin(st, c)
            if c2 is True: return 'proved', None
            if c2 is not c:
                r2, m2 = solver.prove(st.pc, c2, to or self.pr_to)
                if r2 == 'proved' or self.try_ext(st, c2) or self.try_ind(st, c2): return 'proved', None
        if r != 'proved':
            c2 = self.unfold(st, c)
            if c2 is True: return 'proved', None
            if c2 is not c:
                r2, m2 = solver.prove(st.pc, c2, to or self.pr_to)
                if r2 == 'proved' or self.try_ext(st, c2) or self.try_ind(st, c2): return 'proved', None
        return r, m
    def pin(self, st, goal):
        """symbols the path leaves a single value for, by that value; folds over that many iterations written out"""
        if not any(n.k == 'fold' for n in atoms_of(goal)): return goal
        lo = {}; hi = {}
        for c in st.pc:
            if not (isinstance(c, N) and c.k in ('ge0', 'eq0') and isinstance(c.a[0], Poly)): continue
            v = [(m, q) for m, q in c.a[0].t if m]
            if len(v) != 1 or len(v[0][0]) != 1 or v[0][0][0].k != 'sym': continue
            x = v[0][0][0]; q = v[0][1]; k = sum(q2 for m, q2 in c.a[0].t if not m)
            if c.k == 'eq0':
                if k % q == 0: lo[x] = hi[x] = -k // q
            elif q > 0: lo[x] = max(lo.get(x, -(1 << 80)), -(k // q))
            else: hi[x] = min(hi.get(x, 1 << 80), k // -q)
        m = {}
        for x in set(lo) | set(hi):
            a = max(lo.get(x, -(1 << 80)), x.lo if x.lo is not None else -(1 << 80))
            b = min(hi.get(x, 1 << 80), x.hi if x.hi is not None else 1 << 80)
            if a == b: m[x] = a
        if not m: return goal
        g = subst(goal, m)
        for i in range(4):
            rep = {}
            if isinstance(g, bool): return g
            for f in atoms_of(g):
                if f.k == 'fold' and isinstance(f.a[2], int) and 0 < f.a[2] <= 8 and not any(w for w in f.a[5]):
                    k, accs, steps, inits, cnt, j, w = fold_open(f)
                    cur = list(inits)
                    for t in range(cnt):
                        mm = {symnode(k): t}
                        for a, v in zip(accs, cur): mm[symnode(a)] = v
                        cur = [subst(s, mm) for s in steps]
                    rep[f] = cur[j]
            if not rep: break
            g = replace_atoms(g, rep)
        return g
    def unfold(self, st, goal):
        """a loop's value after n+1 iterations in terms of its value after n, where the goal mentions both"""
        folds = [n for n in atoms_of(goal) if n.k == 'fold']
        rep = {}
        for f in folds:
            best = None
            for g in folds:
                if g.a[0] != f.a[0] or len(g.a[4]) != len(f.a[4]): continue
                d = sub(f.a[2], g.a[2])
                if isinstance(d, int) and 1 <= d <= 3 and (best is None or d < best[0]): best = d, g
            if best is None or not self.yes(st, ge0(best[1].a[2])): continue
            k, accs, steps, inits, cnt, j, w = fold_open(f)
            cur = [mk_fold(i, best[1].a[2], inits, k, accs, steps, w) for i in range(len(accs))]
            for d in range(best[0]):
                mm = {symnode(k): add(best[1].a[2], d)}
                for a, v in zip(accs, cur): mm[symnode(a)] = v
                cur = [subst(x, mm) for x in steps]
            rep[f] = cur[j]
        return replace_atoms(goal, rep) if rep else goal
    def try_qf(self, st, goal):
        """instantiate 'the loop continued in each iteration k < n' at the iterations that look at the elements
        the goal and the path condition talk about"""
        sels = {}
        for f in st.pc + (goal,):
            for a in atoms_of(f):
                if a.k == 'sel': sels.setdefault(a.a[0], set()).add(a.a[1])
        st2 = st.fork(); st2.all = (); new = False
        for kap, n, cont in st.all:
            for a in atoms_of(cont):
                if a.k != 'sel' or a.a[0] not in sels: continue
                ln = self.lin(a.a[1], [atom(kap)])
                if ln is None: continue
                c, (b,) = ln
                if b == 0: continue
                for q in sels[a.a[0]]:
                    t = pdiv(sub(q, c), b)
                    if t is None: continue
                    f = bimp(band(ge0(t), lt(t, n)), subst(cont, {kap: t}))
                    if f is not True: st2.assume(f); new = True
        if not new: return False
        r, m = solver.prove(st2.pc, goal, self.pr_to)
        return r == 'proved' or self.try_ext(st2, goal) or self.try_ind(st2, goal)
    def decide(self, st, c, to=None):
        if isinstance(c, bool): return c
        c = solver.simp_by(c, st.pcset)
        if isinstance(c, bool): return c
        to = to or self.dec_to
        r, m = solver.prove(st.pc, c, to, effort=0)
        if r == 'proved': return True
        r, m = solver.prove(st.pc, bnot(c), to, effort=0)
        if r == 'proved': return False
        return None
    def yes(self, st, c, to=None):
        if isinstance(c, bool): return c
        c = solver.simp_by(c, st.pcset)
        if isinstance(c, bool): return c
        return solver.prove(st.pc, c, to or self.dec_to, effort=0)[0] == 'proved'
    def feasible(self, st):
        return solver.prove(st.pc, False, self.dec_to, effort=0)[0] != 'proved'

    # ---------------------------------------------- equality of folds by induction
    def try_ext(self, st, goal, depth=0):
        """goal mentions fold nodes: prove pairs of folds equal by induction over the iterations,
        then retry with these equalities."""
        if isinstance(goal, bool) or depth > 3: return False
        folds = [n for n in atoms_of(goal) if n.k == 'fold']
        if len(folds) < 2: return False
        eqs = []; rep = {}
        for i in range(len(folds)):
            for j in range(i):
                a, b = folds[i], folds[j]
                if a in rep or b in rep: continue
                if a.s != b.s: continue
                if self.fold_equal(st, a, b, depth): rep[a] = b
        if not rep: return False
        g2 = replace_atoms(goal, rep)
        solver.STATS['ext'] += 1
        if g2 is True: return True
        if g2 is goal: return False
        r, m = solver.prove(st.pc, g2, self.pr_to)
        return r == 'proved'
    # ---------------------------------------------- induction over the iterations of a loop's fold
    def try_ind(self, st, goal, depth=0):
        """goal mentions folds over n iterations: prove it for every m <= n by induction on m"""
        if isinstance(goal, bool) or depth > 2: return False
        groups = {}
        for f in atoms_of(goal):
            if f.k == 'fold': groups.setdefault(f.a[2], []).append(f)
        for n, F in sorted(groups.items(), key=lambda kv: -max(f.a[0] for f in kv[1])):
            if isinstance(n, int) and n <= 1: continue
            if self.ind_on(st, goal, n, F, depth):
                solver.STATS['ext'] += 1
                return True
        return False
    def ind_on(self, st, goal, n, F, depth):
        hi = iv(n)[1]
        m = fresh('m', 0, hi if hi != INF else None)
        ns = symnode(n) if isinstance(n, Poly) and len(n.t) == 1 and n.t[0][1] == 1 and len(n.t[0][0]) == 1 and n.t[0][0][0].k == 'sym' else None
        opened = {f: fold_open(f) for f in F}
        def at(f, c):
            k, accs, steps, inits, cnt, j, w = opened[f]
            return mk_fold(j, c, inits, k, accs, steps, w)
        def nxt(f):
            k, accs, steps, inits, cnt, j, w = opened[f]
            mm = {symnode(k): m}
            for i, a in enumerate(accs): mm[symnode(a)] = mk_fold(i, m, inits, k, accs, steps, w)
            return subst(steps[j], mm)
        hyps = []
        if ns is not None:
            gs = fv(goal)
            for c in st.pc:
                if isinstance(c, bool) or ns not in fv(c): continue
                o = fv(c) - {ns}
                if not (o & gs): continue
                if any(x.k == 'fold' for x in atoms_of(c)): continue
                hyps.append(c)
        variants = [(hyps, False)]
        if hyps: variants.append(([], False))
        if ns is not None: variants.append((hyps, True))
        for hy, alln in variants:
            def inst(c, fr):
                def g(x):
                    y = replace_atoms(x, fr)
                    if alln and ns is not None: y = subst(y, {ns: c})
                    return y
                H = band(*[subst(x, {ns: c}) for x in hy]) if hy else True
                return H, g(goal)
            H0, g0 = inst(0, {f: at(f, 0) for f in F})
            s0 = st.fork(); s0.assume(H0)
            if not self.ind_prove(s0, g0, depth): continue
            Hm, gm = inst(m, {f: at(f, m) for f in F})
            H1, g1 = inst(add(m, 1), {f: nxt(f) for f in F})
            s1 = st.fork(); s1.assume(ge0(m)); s1.assume(lt(m, n)); s1.assume(H1)
            if Hm is True:
                s1.assume(gm)
                if not self.ind_prove(s1, g1, depth): continue
            else:
                a = s1.fork(); a.assume(Hm); a.assume(gm)
                if not self.ind_prove(a, g1, depth): continue
                b = s1.fork(); b.assume(bnot(Hm))
                if not self.ind_prove(b, g1, depth): continue
            return True
        return False
    def ind_prove(self, st, g, depth):
        if isinstance(g, bool): return g
        if any(c is False for c in st.pc): return True
        r, _ = solver.prove(st.pc, g, self.dec_to * 3)
        if r == 'proved': return True
        return self.try_ext(st, g, depth + 1) or self.try_ind(st, g, depth + 1)
    def fold_equal(self, st, a, b, depth):
        key = (a, b, st.pc)
        if key in self.fpshare: return self.fpshare[key]
        r = self.fold_equal_(st, a, b, depth)
        self.fpshare[key] = r
        return r
    def fold_equal_(self, st, a, b, depth):
        ca, cb = a.a[2], b.a[2]
        if len(a.a[4]) != len(b.a[4]): return False
        if a.a[1] != b.a[1]: return False
        if ca is not cb and not self.yes(st, eq(ca, cb)): return False
        k, accs, sa, ia, cnt, j, wa = fold_open(a)
        k2, accs2, sb, ib, cnt2, j2, wb = fold_open(b)
        n = len(accs)
        memo = {}
        def sig(s, ac):      # what tells accumulators apart
            f = fv(s)
            return sum(1 for v in ac if symnode(v) in f), any(v is s for v in ac)
        def same0(x, y, loose=False):     # equal initial values
            p, q = ia[x], ib[y]
            if sort_of(p) != sort_of(q) or wa[x] != wb[y] or not loose and sig(sa[x], accs) != sig(sb[y], accs2): return False
            if p is q or (isinstance(p, int) and isinstance(q, int) and p == q): return True
            if (x, y) not in memo: memo[x, y] = self.val_equal(st, p, q, depth)
            return memo[x, y]
        st2 = st.fork()
        st2.assume(ge0(k)); st2.assume(lt(k, cnt))
        def step(perm):      # perm[x]: the accumulator of b that plays the role of accumulator x of a
            m = {symnode(k2): k}
            for x, y in enumerate(perm): m[symnode(accs2[y])] = accs[x]
            tb = [subst(s, m) for s in sb]
            return all(self.val_equal(st2, sa[x], tb[y], depth + 1) for x, y in enumerate(perm))
        if all(same0(x, x, True) for x in range(n)) and step(list(range(n))): return True
        if n < 3: return False
        budget = [24]
        def search(perm):
            if len(perm) == n:
                budget[0] -= 1
                return perm != list(range(n)) and step(perm)
            x = len(perm)
            for y in range(1, n):
                if y in perm or budget[0] <= 0: continue
                if same0(x, y) and search(perm + [y]): return True
            return False
        return same0(0, 0) and search([0])
    def val_equal(self, st, x, y, depth=0):
        if x is y: return True
        so = sort_of(x)
        if so == 'i': g = eq(x, y)
        elif so == 'b': g = bnot(bxor(x, y))
        else: g = self.feq(x, y)
        if g is True: return True
        if g is False: return False
        r, m = solver.prove(st.pc, g, self.dec_to * 3)
        if r == 'proved': return True
        return self.try_ext(st, g, depth + 1) or (depth < 3 and so == 'i' and self.try_ind(st, g, depth + 1))
    def feq(self, x, y):
        if x is y: return True
        # push equality through equal structure:  handled by congruence in the solver
        return mk('feq', (x, y) if x.id < y.id else (y, x), 'b')

    # ------------------------------------------------------------ integer ranges
    def unorm(self, st, t, w):
        """the unsigned value of the w-bit integer t"""
        if t is UNDEF: return UNDEF
        M = 1 << w
        if isinstance(t, int): return t % M
        lo, hi = iv(t)
        if lo >= 0 and hi < M: return t
        # strip multiples of M
        t2 = self.strip(t, M)
        if t2 is not t: return self.unorm(st, t2, w)
        if lo > -M and hi < M:
            c = self.decide(st, ge0(t))
            if c is True: return t
            if c is False: return add(t, M)
            return add(t, ite(ge0(t), 0, M))
        if self.opts.get('wrap') and hi - lo > M: return mod(t, M)
        if self.yes(st, band(ge0(t), lt(t, M))): return t
        if self.yes(st, band(lt(t, 0), ge0(add(t, M)))): return add(t, M)
        return mod(t, M)
    def snorm(self, st, t, w):
        if t is UNDEF: return UNDEF
        M = 1 << w; H = M >> 1
        if isinstance(t, int):
            t %= M
            return t - M if t >= H else t
        lo, hi = iv(t)
        if lo >= -H and hi < H: return t
        t2 = self.strip(t, M)
        if t2 is not t: return self.snorm(st, t2, w)
        if self.yes(st, band(ge0(add(t, H)), lt(t, H))): return t
        if self.yes(st, band(ge0(sub(t, H)), lt(t, M + H))): return sub(t, M)
        return sub(mod(add(t, H), M), H)
    def strip(self, t, M):
        if isinstance(t, int): return t
        ch = False; d = {}
        for m, c in t.t:
            if abs(c) >= M:
                ch = True
                c = c % M
                if c > M // 2: c -= M
            d[m] = c
        if not ch: return t
        from terms import _mkpoly
        return _mkpoly(d)

    def icmp(self, st, pred, a, b, w):
        if a is UNDEF or b is UNDEF:
            self.fail(st, 'use of undefined value'); return False
        if w == 1:
            if pred == 'eq': return bnot(bxor(a, b))
            if pred == 'ne': return bxor(a, b)
            a = ite(a, 1, 0); b = ite(b, 1, 0)
        if pred in ('eq', 'ne'):
            d = sub(a, b)
            M = 1 << w
            if isinstance(d, int): r = d % M == 0
            else:
                d = self.strip(d, M)
                if isinstance(d, int): r = d % M == 0
                else:
                    lo, hi = iv(d)
                    if lo > -M and hi < M: r = eq0(d)
                    elif self.yes(st, band(ge0(sub(d, 1 - M)), ge0(sub(M - 1, d)))): r = eq0(d)
                    else: r = eq0(sub(self.unorm(st, a, w), self.unorm(st, b, w)))
            return r if pred == 'eq' else bnot(r)
        if pred[0] == 'u': x, y = self.unorm(st, a, w), self.unorm(st, b, w)
        else: x, y = self.snorm(st, a, w), self.snorm(st, b, w)
        o = pred[1:]
        return {'lt': lambda: lt(x, y), 'le': lambda: le(x, y), 'gt': lambda: lt(y, x), 'ge': lambda: le(y, x)}[o]()

    # ------------------------------------------------------------ values
    def zero(self, t):
        ty = self.p.types[t]; k = ty['k']
        if k == 'i': return False if ty['w'] == 1 else 0
        if k == 'p': return NULL
        if k == 'f': return fconst(0, ty['w'])
        if k == 's': return tuple(self.zero(e) for e in ty['e'])
        if k in ('a', 'vec'): return tuple(self.zero(ty['e']) for _ in range(ty['n']))
        raise Unsupported('zero ' + k)
    def undef(self, t):
        ty = self.p.types[t]; k = ty['k']
        if k == 's': return tuple(self.undef(e) for e in ty['e'])
        if k in ('a', 'vec'): return tuple(self.undef(ty['e']) for _ in range(ty['n']))
        return UNDEF
    def val(self, st, op):
        t = op[0]
        if t == 'v': return st.frames[-1].regs[op[1]]
        if t == 'i': return bool(op[2]) if op[1] == 1 else op[2]
        if t == 'g': return self.glob(st, op[1])
        if t == 'null': return NULL
        if t == 'f': return fconst(op[2], self.p.types[op[1]]['w'])
        if t == 'undef': return self.undef(op[1])
        if t == 'zero': return self.zero(op[1])
        if t == 'agg': return tuple(self.val(st, o) for o in op[2])
        if t == 'gep': return self.gep(st, op[1])
        if t == 'ce':
            if op[1] in ('bitcast', 'addrspacecast'): return self.val(st, op[3][0])
            if op[1] == 'ptrtoint': return self.ptrtoint(st, self.val(st, op[3][0]))
            if op[1] == 'inttoptr': return self.inttoptr(st, self.val(st, op[3][0]))
            if op[1] == 'trunc': return self.val(st, op[3][0])
            if op[1] in ('sub', 'add'):
                a, b = self.val(st, op[3][0]), self.val(st, op[3][1])
                return add(a, b) if op[1] == 'add' else sub(a, b)
        raise Unsupported('operand %s' % (op,))
    def glob(self, st, name):
        if name in self.p.fns: return Ptr('fn:' + name, 0)
        g = self.p.globs.get(name)
        if g is None: raise Unsupported('global ' + name)
        oid = self.globobj.get(name)
        if oid is None:
            o = Obj(g['size'], 'global', name)
            o.const = bool(g['const'])
            oid = self.globobj[name] = o.id
            self.globproto = getattr(self, 'globproto', {}); self.globproto[oid] = (o, g)
        if oid not in st.mem:
            o, g = self.globproto[oid]
            o2 = o.clone(st.tok)
            o2.cells = {}
            st.mem[oid] = o2
            if 'init' in g: self.store_val(st, oid, 0, g['ty'], self.val(st, g['init']))
            else: o2.base = ('ext', name)
        return Ptr(oid, 0)
    def gep(self, st, g):
        b = self.val(st, g['base'])
        off = g['off']
        for o, s in g['var']:
            v = self.val(st, o)
            w = 64
            if o[0] == 'v':
                # index width: sign-extended
                pass
            if v is UNDEF: self.fail(st, 'undefined index'); v = 0
            off = add(off, scale(v, s))
        if isinstance(off, Poly): off = self.addr(st, off)
        if not isinstance(b, Ptr): raise Unsupported('gep on %r' % (b,))
        o = add(b.off, off)
        if isinstance(o, Poly): o = self.addr(st, o)
        return Ptr(b.obj, o)
    def addr(self, st, o):
        """bring a 64-bit byte offset into its signed range cheaply"""
        return self.strip(o, 1 << 64)
    def ptrtoint(self, st, p):
        if p.obj is None: return p.off
        if isinstance(p.obj, str): return add(sym('fn@' + p.obj, 16, 1 << 47), p.off)
        o = st.mem[p.obj]
        a = o.align
        # base address = align * q, non-null, within the address space
        q = sym('addr@%d' % p.obj, 1, (1 << 47) // a)
        return add(scale(q, a), p.off)
    def inttoptr(self, st, x):
        if isinstance(x, int):
            if x % (1 << 64) == 0: return NULL
            return Ptr(None, x)
        for m, c in x.t:
            if len(m) == 1 and m[0].k == 'sym' and m[0].a[0].startswith('addr@'):
                oid = int(m[0].a[0][5:])
                if oid in st.mem and c == st.mem[oid].align:
                    return Ptr(oid, sub(x, scale(atom(m[0]), c)))
        x2 = self.unorm(st, x, 64)
        if x2 is not x: return self.inttoptr(st, x2)
        raise Unsupported('inttoptr ' + show(x)[:200])

    def vite(self, c, x, y):
        if isinstance(c, bool): return x if c else y
        if x is y: return x
        if isinstance(x, tuple):
            return tuple(self.vite(c, a, b) for a, b in zip(x, y))
        if x is UNDEF or y is UNDEF:
            return y if x is UNDEF else x    # an undefined value may be anything (only reached on dead paths)
        if isinstance(x, Ptr):
            if not isinstance(y, Ptr): raise Unsupported('ite ptr')
            if x == y: return x
            if x.obj == y.obj: return Ptr(x.obj, ite(c, x.off, y.off))
            raise ForkOn(c)
        if isinstance(x, bool) or (isinstance(x, N) and x.s == 'b'): return bite(c, x, y)
        if isinstance(x, (int, Poly)): return ite(c, x, y)
        return fite(c, x, y)

    # ------------------------------------------------------------ memory
    def obj(self, st, p, what):
        if p is UNDEF: self.fail(st, what + ' through undefined pointer', 'memory'); raise Stop()
        if not isinstance(p, Ptr): raise Unsupported('pointer %r' % (p,))
        if p.obj is None: self.fail(st, what + ' through null pointer', 'memory'); raise Stop()
        if isinstance(p.obj, str): raise Unsupported('data access to function')
        o = st.mem.get(p.obj)
        if o is None: raise Unsupported('dangling object')
        if not o.alive: self.fail(st, what + ' of freed/expired storage (%s)' % o.name, 'memory'); raise Stop()
        return o
    def bounds(self, st, o, off, size, what):
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + size > o.size:
                self.fail(st, '%s out of bounds' % what, 'memory'); raise Stop()
            return
        c = band(ge0(off), le(add(off, size), o.size))
        self.check(st, c, '%s in bounds' % what, 'memory')
        if any(x is False for x in st.pc): raise Stop()

    def load(self, st, p, t):
        ty = self.p.types[t]; k = ty['k']
        if k in ('s',):
            return tuple(self.load(st, Ptr(p.obj, add(p.off, o)), e) for e, o in zip(ty['e'], ty['off']))
        if k in ('a', 'vec'):
            es = self.p.size(ty['e'])
            return tuple(self.load(st, Ptr(p.obj, add(p.off, i * es)), ty['e']) for i in range(ty['n']))
        size = ty['store']
        o = self.obj(st, p, 'read')
        self.bounds(st, o, p.off, size, 'read')
        v = self.read(st, o, p.off, size, k, ty.get('w'))
        return v
    def tykey(self, k, w): return 'p' if k == 'p' else ('i' if k == 'i' else 'f%d' % w)

    def read(self, st, o, off, size, k, w):
        """content of object o at off as type (k,w)"""
        try:
            if o.layers: return self.read_layers(st, o, len(o.layers), off, size, k, w)
            return self.read_cells(st, o, off, size, k, w)
        except Unsupported as e:
            if getattr(e, 'oid', None) is None: e.oid = o.id
            raise
    def read_cells(self, st, o, off, size, k, w):
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[0] == size: return self.conv(st, c[1], size, k, w)
            # overlapping cells?
            ov = [x for x in o.cells if x < off + size and x + o.cells[x][0] > off]
            if not ov: return self.read_base(st, o, off, size, k, w)
            # gather bytes little-endian as an integer
            ov.sort()
            if len(ov) == 1 and ov[0] <= off and ov[0] + o.cells[ov[0]][0] >= off + size:
                x = ov[0]; cs, cv = o.cells[x]
                if cv is UNDEF: return UNDEF
                v = self.toint(st, cv, cs)
                v = self.unorm(st, v, cs * 8)
                v = div(v, 1 << (8 * (off - x))) if off > x else v
                return self.fromint(st, v, size, k, w)
            pos = off; r = 0; und = False
            for x in ov:
                cs, cv = o.cells[x]
                if x != pos or x + cs > off + size:
                    if x > pos and o.base[0] in ('uninit',): und = True; pos = x
                    elif x > pos and o.base[0] == 'zero': pos = x
                    else: raise Unsupported('partial overlap read')
                if cv is UNDEF: und = True
                else: r = add(r, scale(self.unorm(st, self.toint(st, cv, cs), cs * 8), 1 << (8 * (x - off))))
                pos = x + cs
            if pos < off + size and o.base[0] == 'uninit': und = True
            if und: return UNDEF
            return self.fromint(st, r, size, k, w)
        # symbolic offset into cells
        lo, hi = iv(off)
        cand = []
        if o.cells:
            for x in sorted(o.cells):
                cs = o.cells[x][0]
                d = sub(off, x)
                if isinstance(d, Poly) and (iv(d)[0] >= cs or iv(d)[1] <= -size): continue
                r = self.decide(st, eq0(d), 0.5)
                if r is True:
                    if cs != size: raise Unsupported('symbolic mixed-size read')
                    return self.conv(st, o.cells[x][1], size, k, w)
                if cs != size:
                    if self.yes(st, bor(ge0(sub(d, cs)), le(d, -size))): continue
                    raise Unsupported('symbolic mixed-size read of ' + o.name)
                if r is None: cand.append(x)
                elif not self.div_aligned(d, size) and not self.yes(st, bor(ge0(sub(d, cs)), le(d, -size))):
                    raise Unsupported('misaligned symbolic read')
        if not cand: return self.read_base(st, o, off, size, k, w)
        if len(cand) > 64: raise Unsupported('too many symbolic candidates')
        for x in cand:
            if not self.div_aligned(sub(off, x), size):
                if not self.yes(st, bor(eq0(sub(off, x)), bor(ge0(sub(sub(off, x), size)), le(sub(off, x), -size)))): raise Unsupported('misaligned symbolic read')
        last = None
        if self.yes(st, bor(*[eq0(sub(off, x)) for x in cand])):
            last = self.conv(st, o.cells[cand[-1]][1], size, k, w); cand = cand[:-1]
        else: last = self.read_base(st, o, off, size, k, w)
        for x in reversed(cand):
            last = self.vite(eq0(sub(off, x)), self.conv(st, o.cells[x][1], size, k, w), last)
        return last
    def div_aligned(self, d, size):
        if isinstance(d, int): return d % size == 0
        return all(c % size == 0 for m, c in d.t)
    def read_base(self, st, o, off, size, k, w):
        b = o.base
        if b[0] == 'zero': return self.fromint(st, 0, size, k, w)
        if b[0] == 'uninit': return UNDEF
        if b[0] == 'arr':
            a, es = b[1], b[2]
            s = a.a[1]
            if size != es:
                raise Unsupported('read of size %d from array of %d (%s)' % (size, es, o.name))
            idx = pdiv(off, es)
            if idx is None:
                if self.yes(st, eq0(mod(off, es))): idx = div(off, es)
                else: raise Unsupported('misaligned array read')
            v = sel(a, idx)
            if len(b) > 3:      # symbolic element bounds
                st.assume(band(le(b[3], v), le(v, b[4])))
            return self.conv(st, v, size, k, w)
        if b[0] == 'gen':      # generic content (array accumulators)
            return b[1](st, off, size, k, w)
        if b[0] == 'ext' and o.name == '__libc_single_threaded':
            self.notes.add('the process is single-threaded (__libc_single_threaded is 1)')
            return self.fromint(st, 1, size, k, w)
        raise Unsupported('read of external %s' % o.name)
    def conv(self, st, v, size, k, w):
        if v is UNDEF: return v
        if k == 'p':
            if isinstance(v, Ptr): return v
            return self.inttoptr(st, self.toint(st, v, size))
        if k == 'i':
            if isinstance(v, (int, Poly)) and not isinstance(v, bool): return self.mod1(st, v, w)
            return self.mod1(st, self.toint(st, v, size), w)
        if isinstance(v, N) and v.s == 'f%d' % w: return v
        return self.fromint(st, self.toint(st, v, size), size, k, w)
    def mod1(self, st, v, w):
        if w == 1: return bnot(eq0(mod(v, 2)))
        return v
    def toint(self, st, v, size):
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, Poly)): return v
        if isinstance(v, Ptr): return self.ptrtoint(st, v)
        if isinstance(v, N):
            if v.s == 'b': return ite(v, 1, 0)
            if v.k == 'fc': return v.a[0]
            if v.k == 'uf' and v.a[0] == 'bits2f': return v.a[1]
            return uf('f2bits', (v,), 'i', 0, (1 << (8 * size)) - 1)
        raise Unsupported('toint %r' % (v,))
    def fromint(self, st, v, size, k, w):
        if k == 'i': return self.mod1(st, v, w)
        if k == 'p': return self.inttoptr(st, v)
        if isinstance(v, int): return fconst(v % (1 << (8 * size)), w)
        v = self.unorm(st, v, 8 * size)
        if isinstance(v, Poly) and len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1:
            n = v.t[0][0][0]
            if n.k == 'uf' and n.a[0] == 'f2bits' and n.a[1].s == 'f%d' % w: return n.a[1]
        if isinstance(v, Poly):
            s = None
            if len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1 and v.t[0][0][0].k == 'ite':
                c, a, b = v.t[0][0][0].a
                return fite(c, self.fromint(st, a, size, k, w), self.fromint(st, b, size, k, w))
        return uf('bits2f', (v,), 'f%d' % w)

    # ---- layers
    def read_layers(self, st, o, n, off, size, k, w):
        while n > 0:
            l = o.layers[n - 1]
            if isinstance(l, Point):
                d = sub(off, l.off)
                if isinstance(d, int):
                    if d == 0 and l.size == size: return self.conv(st, l.val, size, k, w)
                    if d >= l.size or d <= -size: n -= 1; continue
                    if 0 <= d and d + size <= l.size and l.val is not UNDEF:
                        v = div(self.unorm(st, self.toint(st, l.val, l.size), 8 * l.size), 1 << (8 * d))
                        return self.fromint(st, v, size, k, w)
                    raise Unsupported('partial overlap')
                if l.size == size and (self.div_aligned(d, size) or self.yes(st, bor(eq0(d), bor(ge0(sub(d, size)), le(d, -size))))):
                    r = self.decide(st, eq0(d))
                    if r is True: return self.conv(st, l.val, size, k, w)
                    if r is False: n -= 1; continue
                    return self.vite(eq0(d), self.conv(st, l.val, size, k, w), self.read_layers(st, o, n - 1, off, size, k, w))
                if self.yes(st, bor(ge0(sub(d, l.size)), le(d, -size))): n -= 1; continue
                raise Unsupported('alias of different size')
            if isinstance(l, Fill):
                inside = band(le(l.off, off), le(add(off, size), add(l.off, l.n)))
                r = self.decide(st, inside)
                if r is True: return self.fromint(st, l.byte * (((1 << (8 * size)) - 1) // 255), size, k, w)
                if self.yes(st, bor(le(add(off, size), l.off), le(add(l.off, l.n), off))): n -= 1; continue
                if r is None:
                    return self.vite(inside, self.fromint(st, l.byte * (((1 << (8 * size)) - 1) // 255), size, k, w),
                                     self.read_layers(st, o, n - 1, off, size, k, w))
                raise Unsupported('fill overlap')
            if isinstance(l, PFold):
                if l.size != size: raise Unsupported('pfold size')
                idx = pdiv(off, size)
                if idx is None:
                    if not self.yes(st, eq0(mod(off, size))): raise Unsupported('misaligned read of an array accumulator')
                    idx = div(off, size)
                init = self.read_layers(st, o, n - 1, off, size, k, w)
                if init is UNDEF:      # an arbitrary value
                    init = sel(arr('undef@%d' % o.id, 'i' if k == 'i' else 'f%d' % w), idx) if k in 'if' else UNDEF
                if init is UNDEF: raise Unsupported('pfold of pointers')
                m = {symnode(l.p): idx}
                v = mk_fold(0, l.count, [init] + l.inits, l.k, l.accs, [subst(x, m) for x in l.steps], l.widths)
                return self.conv(st, v, size, k, w)
            # Range
            r = self.range_hit(st, l, off, size)
            if r is None: n -= 1; continue
            cond, e = r
            m = {symnode(kk): ee for (kk, c), ee in zip(l.bs, e)}
            v = l.val
            if v is not UNDEF:
                v = self.conv(st, subst(v, m), size, k, w)
                if self.arrbounds: self.assume_bounds(st, v)
            if cond is True: return v
            if v is UNDEF: raise Unsupported('maybe-undef')
            rest = self.read_layers(st, o, n - 1, off, size, k, w)
            if rest is UNDEF:
                if self.yes(st, cond): return v
                if n > 1:
                    # what is below only where this layer does not cover it
                    st2 = st.fork(); st2.assume(bnot(cond))
                    rest = self.read_layers(st2, o, n - 1, off, size, k, w)
            return self.vite(cond, v, rest)
        return self.read_cells(st, o, off, size, k, w)

    def assume_bounds(self, st, v):
        """elements of arrays declared with symbolic bounds"""
        if isinstance(v, Ptr): v = v.off
        if fv(v).isdisjoint(self.arrbounds): return
        for a in atoms_of(v):
            if a.k == 'sel' and a.a[0] in self.arrbounds:
                lo, hi = self.arrbounds[a.a[0]]; st.assume(band(le(lo, atom(a)), le(atom(a), hi)))
    def lin(self, off, ks):
        """off = c0 + sum s_i * k_i  -> (c0,[s_i]) or None"""
        from terms import _mkpoly
        nodes = [symnode(k) for k in ks]; S = set(nodes)
        if isinstance(off, int): return off, [0] * len(ks)
        c0 = {}; s = [dict() for _ in ks]
        for m, c in off.t:
            hit = [a for a in m if a in S]
            if not hit:
                if any(not fv(a).isdisjoint(S) for a in m): return None
                c0[m] = c; continue
            if len(hit) > 1: return None
            i = nodes.index(hit[0])
            mm = list(m); mm.remove(hit[0])
            if any(not fv(a).isdisjoint(S) for a in mm): return None
            s[i][tuple(mm)] = c
        return _mkpoly(c0), [_mkpoly(x) for x in s]

    def range_hit(self, st, l, off, size):
        """None: provably not written by l at off;  (cond, e): written iff cond, by iteration e"""
        if any(c is False for c in st.pc): return None
        if l.size != size:
            if self.range_miss(st, l, off, size): return None
            raise Unsupported('range size mismatch %d vs %d' % (l.size, size))
        ks = [k for k, c in l.bs]
        ln = self.lin(l.off, ks)
        if ln is None:
            if self.range_miss(st, l, off, size): return None
            raise Unsupported('non-linear write pattern ' + show(l.off)[:200])
        c0, ss = ln
        t = sub(off, c0)
        # alignment: everything in units of size?
        order = [i for i in range(len(ks)) if ss[i] != 0]
        order.sort(key=lambda i: self.stride_key(ss[i]), reverse=True)
        cands = self.solve_digits(st, t, [ss[i] for i in order], [l.bs[i][1] for i in order])
        cands += self.skew_digits(st, t, [ss[i] for i in order])
        if len(cands) > 9: cands = self.rank_digits(st, cands, [l.bs[i][1] for i in order])
        zero = [i for i in range(len(ks)) if ss[i] == 0]
        best = None
        for es, rem in cands:
            e = [None] * len(ks)
            for i, x in zip(order, es): e[i] = x
            for i in zero: e[i] = sub(l.bs[i][1], 1)
            m = {symnode(k): x for k, x in zip(ks, e)}
            cs = []
            for (k, c), x in zip(l.bs, e):
                cc = subst(c, m)
                cs.append(band(ge0(x), lt(x, cc)))
            g = subst(l.guard, m)
            cond = band(eq0(rem) if not (isinstance(rem, int) and rem == 0) else True, g, *cs)
            cond = solver.simp_by(cond, st.pcset)
            if zero and l.guard is not True and not fv(l.guard).isdisjoint({symnode(ks[i]) for i in zero}):
                raise Unsupported('guarded overwrite')
            r = self.decide(st, cond)
            if r is True:
                if not self.unique(st, l, ss, order, e, rem, m): 
                    best = best or ('nouniq',)
                    continue
                return True, e
            if best is None or best[0] == 'nouniq':
                if self.unique(st, l, ss, order, e, rem, m):
                    if r is False: return None
                    best = ('c', cond, e)
        if best and best[0] == 'c': return best[1], best[2]
        if self.range_miss(st, l, off, size): return None
        raise Unsupported('cannot resolve read at %s against %r' % (show(off)[:200], l))
    def stride_key(self, s):
        if isinstance(s, int): return (0, abs(s))
        d = max(len(m) for m, c in s.t)
        lo, hi = iv(s)
        return (d, hi if hi != INF else 1 << 80)
    def solve_digits(self, st, t, ss, counts):
        """candidates e with t = sum s_i e_i + rem"""
        res = [([], t)]
        for s in ss:
            new = []
            for es, r in res:
                if isinstance(s, int):
                    a = abs(s)
                    q = div(r, a)
                    r2 = sub(r, mul(q, a))
                    if s < 0: q = neg(q)
                    new.append((es + [q], r2))
                    if s < 0: pass
                else:
                    q, r2 = self.pdivrem(r, s)
                    new.append((es + [q], r2))
                    if s is not ss[-1] or True:
                        new.append((es + [sub(q, 1)], add(r2, s)))
                        new.append((es + [add(q, 1)], sub(r2, s)))
            res = new
        # drop hopeless (non-zero constant remainder)
        out = [(e, r) for e, r in res if not (isinstance(r, int) and r != 0)]
        return out
    def skew_digits(self, st, t, ss):
        """a*(s+d) + b*s = (a+b)*s + a*d: candidates for strides that differ by a smaller one (diagonal walks)"""
        out = []
        for i in range(len(ss) - 1):
            d = sub(ss[i], ss[i + 1])
            if d == 0 or isinstance(ss[i + 1], int): continue
            if self.stride_key(d)[0] >= self.stride_key(ss[i + 1])[0]: continue
            rest = [x for k, x in enumerate(ss) if k not in (i, i + 1)]
            new = [(ss[i + 1], 'J'), (d, 'd')] + [(x, k) for k, x in enumerate(ss) if k not in (i, i + 1)]
            new.sort(key=lambda y: self.stride_key(y[0]), reverse=True)
            for es, r in self.solve_digits(st, t, [x for x, _ in new], None):
                m = {k: e for (x, k), e in zip(new, es)}
                e = [m.get(k) for k in range(len(ss))]
                e[i] = m['d']; e[i + 1] = sub(m['J'], m['d'])
                out.append((e, r))
        return out
    def rank_digits(self, st, cands, counts):
        """the candidates most often in range on sampled small values (a heuristic order only)"""
        import random
        rnd = random.Random(1)
        F = frozenset().union(*[fv(x) for e, r in cands for x in e], *[fv(c) for c in counts])
        pc = [c for c in solver.conj(st.pc) if isinstance(c, N) and c.k in ('ge0', 'eq0') and fv(c) <= F]
        syms = sorted(F, key=lambda n: n.id if hasattr(n, 'id') else str(n.a))
        good = []
        for _ in range(3000):
            m = {n: rnd.randint(max(0, n.lo or 0), max(0, n.lo or 0) + rnd.choice((1, 3, 5))) for n in syms if n.s == 'i'}
            if all(subst(c, m) is True for c in pc): good.append(m)
            if len(good) >= 12: break
        if not good: return cands[:9]
        sc = []
        for e, r in cands:
            n = 0
            for m in good:
                try:
                    if all(isinstance(subst(x, m), int) and isinstance(subst(c, m), int) and 0 <= subst(x, m) < subst(c, m) for x, c in zip(e, counts)): n += 1
                except TypeError: pass
            sc.append(n)
        o = sorted(range(len(cands)), key=lambda i: -sc[i])
        return [cands[i] for i in o[:9]]
    def pdivrem(self, r, s):
        from terms import _mdiv, _mkpoly
        lm, lc = s.t[-1]
        q = {}; 
        rem = r
        for _ in range(40):
            done = True
            if isinstance(rem, int): break
            for m, c in reversed(rem.t):
                dm = _mdiv(m, lm)
                if dm is not None and (c % lc == 0 or abs(c) > abs(lc)):
                    term = _mkpoly({dm: c // lc})
                    rem = sub(rem, mul(term, s)); q = add(q, term) if not isinstance(q, dict) else term
                    done = False
                    break
            if done: break
        return (0 if isinstance(q, dict) else q), rem
    def unique(self, st, l, ss, order, e, rem, m):
        """k in range, guard(k), off(k)=off  ==>  k = e (for binders with non-zero stride) and rem = 0"""
        if not order: return True     # (no digit: rem is the whole difference)
        key = None
        st2 = None
        n = len(order)
        ok = True
        for a in range(n):
            i = order[a]; s = ss[i]
            pos = self.decide(st, ge0(sub(s, 1)))
            if pos is None: return self.unique_slow(st, l, ss, order, e, rem)
            if pos is False:
                if not self.yes(st, lt(s, 0)): return self.unique_slow(st, l, ss, order, e, rem)
                s = neg(s)
            # the remainder and the inner digits together must not amount to a step of this digit
            st2 = st.fork(); d = rem
            if a == n - 1 and rem == 0: break
            mm = {}
            for i2 in order[a + 1:]:
                k, c = l.bs[i2]
                kk = fresh('u', 0, None)
                mm[symnode(k)] = kk
                if not fv(c).isdisjoint({symnode(k3) for k3, c3 in l.bs}):
                    return self.unique_slow(st, l, ss, order, e, rem)
                st2.assume(lt(kk, c)); st2.assume(ge0(kk))
                d = add(d, mul(ss[i2], sub(e[i2], kk)))
            # e of the inner digits must be in the range making |d|<s ; assume the written condition of inner digits
            g = band(lt(d, s), lt(neg(d), s))
            if not self.yes(st2, g, 3.0):
                return self.unique_slow(st, l, ss, order, e, rem)
        return True
    def unique_slow(self, st, l, ss, order, e, rem):
        st2 = st.fork(); m = {}
        ks = []
        for k, c in l.bs:
            kk = fresh('u', 0, None); m[symnode(k)] = kk; ks.append(kk)
        for k, c in l.bs:
            st2.assume(lt(m[symnode(k)], subst(c, m)))
        st2.assume(subst(l.guard, m))
        off2 = 0; off1 = 0
        for i in order:
            off2 = add(off2, mul(subst(ss[i], m), ks[i])); off1 = add(off1, mul(ss[i], e[i]))
        st2.assume(eq(off2, add(off1, rem)))
        return self.yes(st2, band(eq0(rem), *[eq(ks[i], e[i]) for i in order]), 5.0)
    def range_miss(self, st, l, off, size):
        st2 = st.fork(); m = {}
        for k, c in l.bs: m[symnode(k)] = fresh('m', 0, None)
        for k, c in l.bs: st2.assume(lt(m[symnode(k)], subst(c, m)))
        st2.assume(subst(l.guard, m))
        o2 = subst(l.off, m)
        d = sub(off, o2)
        return self.yes(st2, bor(ge0(sub(d, l.size)), le(d, -size)), 3.0)

    def store_val(self, st, oid, off, t, v):
        ty = self.p.types[t]; k = ty['k']
        if k == 's':
            for e, o, x in zip(ty['e'], ty['off'], v): self.store_val(st, oid, add(off, o), e, x)
            return
        if k in ('a', 'vec'):
            es = self.p.size(ty['e'])
            for i, x in enumerate(v): self.store_val(st, oid, add(off, i * es), ty['e'], x)
            return
        if k == 'i' and ty['w'] == 1 and v is not UNDEF: v = ite(v, 1, 0)
        self.write(st, oid, off, ty['store'], v)
    def store(self, st, p, t, v):
        ty = self.p.types[t]
        o = self.obj(st, p, 'write')
        if o.const: self.fail(st, 'write to constant storage', 'memory'); raise Stop()
        self.bounds(st, o, p.off, ty.get('store', self.p.size(t)), 'write')
        self.store_val(st, p.obj, p.off, t, v)
    def write(self, st, oid, off, size, v):
        o = st.wobj(oid)
        if isinstance(off, int) and not o.layers:
            ov = [x for x in o.cells if x < off + size and x + o.cells[x][0] > off] if off not in o.cells or o.cells[off][0] != size else []
            for x in ov:
                cs, cv = o.cells[x]
                del o.cells[x]
                if x < off or x + cs > off + size:   # keep the uncovered bytes
                    iv_ = UNDEF if cv is UNDEF else self.unorm(st, self.toint(st, cv, cs), cs * 8)
                    if x < off: o.cells[x] = (off - x, UNDEF if iv_ is UNDEF else mod(iv_, 1 << (8 * (off - x))))
                    e = off + size
                    if x + cs > e: o.cells[e] = (x + cs - e, UNDEF if iv_ is UNDEF else div(iv_, 1 << (8 * (e - x))))
            o.cells[off] = (size, v)
            return
        # drop an exactly-overwritten newest point
        if o.layers and isinstance(o.layers[-1], Point) and o.layers[-1].off is off and o.layers[-1].size == size:
            o.layers = o.layers[:-1]
        o.layers = o.layers + (Point(off, size, v),)
        if not isinstance(v, Undef): o.ety = (size, self.sortkey(v))
    def sortkey(self, v):
        if isinstance(v, Ptr): return ('p', 64)
        if isinstance(v, N) and v.s != 'b': return ('f', int(v.s[1:]))
        return ('i', None)
    def elemtype(self, o):
        """(size,k,w) of the elements of region o"""
        if o.ety:
            s, (k, w) = o.ety
            return s, k, (w if w else 8 * s)
        if o.base[0] == 'arr':
            a, es = o.base[1], o.base[2]
            s = a.a[1]
            return es, ('i' if s == 'i' else 'f'), (8 * es if s == 'i' else int(s[1:]))
        for l in reversed(o.layers):
            if isinstance(l, (Point, Range)) and l.val is not UNDEF:
                k, w = self.sortkey(l.val)
                return l.size, k, (w if w else 8 * l.size)
        for x in o.cells:
            s, v = o.cells[x]
            if v is not UNDEF:
                k, w = self.sortkey(v)
                return s, k, (w if w else 8 * s)
        return None

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int):
            n = self.unorm(st, n, 64)
        if isinstance(n, Poly):
            c = self.decide(st, eq0(n))
            if c is True: return
        so = self.obj(st, s, 'read'); do = self.obj(st, d, 'write')
        self.bounds(st, so, s.off, n, 'memcpy read'); self.bounds(st, do, d.off, n, 'memcpy write')
        if isinstance(n, int) and n <= 1024 and isinstance(s.off, int) and not so.layers and isinstance(d.off, int) and not do.layers:
            cells = [(x, so.cells[x]) for x in sorted(so.cells) if x >= s.off and x + so.cells[x][0] <= s.off + n]
            part = [x for x in so.cells if (x < s.off < x + so.cells[x][0]) or (x < s.off + n < x + so.cells[x][0])]
            base_ok = so.base[0] == 'uninit' or sum(c[0] for x, c in cells) == n
            if not part and base_ok:
                o = st.wobj(d.obj)
                self.clear(st, o, d.off, n)
                for x, c in cells: o.cells[x - s.off + d.off] = c
                # bytes not covered by cells become undefined
                return
        et = self.elemtype(so)
        if et is None:
            if so.base[0] == 'uninit' and not so.cells and not so.layers: return   # copying undefined bytes
            if so.base[0] == 'zero' and isinstance(d.off, (int, Poly)):
                o = st.wobj(d.obj); o.layers = o.layers + (Fill(d.off, n, 0),); return
            raise Unsupported('memcpy of unknown element type')
        es, k, w = et
        if isinstance(n, int) and n <= 64 * es and n % es == 0:
            vals = [self.read(st, so, add(s.off, i), es, k, w) for i in range(0, n, es)]
            for i, v in enumerate(vals): self.write(st, d.obj, add(d.off, i * es), es, v)
            return
        cnt = pdiv(n, es)
        if cnt is None: raise Unsupported('memcpy size not a multiple')
        kk = fresh('c', 0, (iv(cnt)[1] - 1) if iv(cnt)[1] != INF else None)
        st2 = st.fork(); st2.assume(lt(kk, cnt)); st2.assume(ge0(kk))
        v = self.read(st2, st2.mem[s.obj], add(s.off, scale(kk, es)), es, k, w)
        if v is UNDEF: v = UNDEF
        o = st.wobj(d.obj)
        o.layers = o.layers + (Range([(kk, cnt)], True, add(d.off, scale(kk, es)), es, v),)
        o.ety = (es, (k, w if k == 'f' else None))
    def clear(self, st, o, off, n):
        for x in list(o.cells):
            cs = o.cells[x][0]
            if x >= off and x + cs <= off + n: del o.cells[x]
            elif x < off + n and x + cs > off:
                self.write(st, o.id, max(x, off), min(x + cs, off + n) - max(x, off), UNDEF)
                o2 = st.mem[o.id]
                for y in [y for y in o2.cells if y >= off and y + o2.cells[y][0] <= off + n]: del o2.cells[y]
    def memset(self, st, d, byte, n):
        if not isinstance(n, int): n = self.unorm(st, n, 64)
        if isinstance(n, int) and n == 0: return
        if isinstance(n, Poly) and self.decide(st, eq0(n)) is True: return
        do = self.obj(st, d, 'write')
        self.bounds(st, do, d.off, n, 'memset')
        if not isinstance(byte, int): raise Unsupported('memset symbolic byte')
        byte %= 256
        o = st.wobj(d.obj)
        if isinstance(n, int) and isinstance(d.off, int) and not o.layers and n <= 4096:
            self.clear(st, o, d.off, n)
            if n <= 256 or byte:
                i = 0
                while i < n:
                    s = 8 if n - i >= 8 else 4 if n - i >= 4 else 2 if n - i >= 2 else 1
                    o.cells[d.off + i] = (s, byte * (((1 << (8 * s)) - 1) // 255)); i += s
                return
        o.layers = o.layers + (Fill(d.off, n, byte),)

class Stop(Exception): pass
