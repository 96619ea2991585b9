"""Loop contracts: an inductive closed form is proposed from generic executions of the body and then
proved (base: by construction; step: re-execution of the body from the closed form at a generic iteration)."""
from execu import *

class Cls:
    """classification of a loop-carried value"""
    __slots__ = ('kind', 'c', 'f')
    def __init__(s, kind, c=None, f=None): s.kind = kind; s.c = c; s.f = f
    def key(s): return (s.kind, tuple(x.key() if x is not None else None for x in s.c) if s.kind == 'tup' else s.c, s.f)
    def __repr__(s): return '%s(%s%s)' % (s.kind, show(s.c) if s.c is not None else '', show(s.f) if s.f is not None and s.kind != 'any' else '')

import os
DBG2 = 'VP_TRIP' in os.environ
from solver import conj as solver_conj
KHI = 1 << 48      # no loop runs 2^48 iterations (time): recorded as an assumption

def summarise(E, S0, src, h, peel=2):
    E.inloop += 1
    sc = E.collect
    try:
        lo = LoopSum(E, S0, src, h, sc)
        lo.odo = True
        try:
            try: return lo.go()
            except Odometer as o:
                try: return nest(E, S0, src, h, sc, o.digits)
                except (Unsupported, ForkOn) as e:
                    if DBG: print('     odometer:', str(e)[:300])
                    if 'limit' in str(e): raise
                    E.collect = sc
                return LoopSum(E, S0, src, h, sc).go()
        except (Unsupported, ForkOn) as e:
            if 'limit' in str(e): raise
            E.collect = sc
            if peel and 'allocation' in str(e):
                # storage allocated on first use: execute the first iteration, then summarise the rest
                lo = LoopSum(E, S0, src, h, sc)
                st = S0.fork()
                E.phis(st, st.frames[-1], src, h); st.frames[-1].loops.pop(h, None)
                latch, exits = lo.iterate(st)
                out = [x for x in exits if E.feasible(x[0])]
                latch = [x for x in latch if E.feasible(x[0])]
                if len(latch) <= 4:
                    for y, b in latch: out += summarise(E, y, b, h, peel - 1)
                    return out
            r = LoopSum(E, S0, src, h, sc).unroll(9)
            if r is not None: return r
            if isinstance(e, ForkOn): raise Unsupported('case split in a summarised loop')
            raise
    finally:
        E.inloop -= 1
        E.collect = sc

class Odometer(Exception):
    """a loop that steps several counters, each returning to 0 when it reaches its extent (innermost first)"""
    def __init__(s, digits): s.digits = digits

class LoopSum:
    odo = False
    def __init__(s, E, S0, src, h, collect):
        s.E = E; s.S0 = S0; s.src = src; s.h = h; s.collect0 = collect
        s.d = len(S0.frames); f = S0.frames[-1]
        s.fn = f.fn; s.L = f.fn['hdr'][h]
        s.set = s.L['set']
        s.phis = [i for i in f.fn['blocks'][h] if i['o'] == 'phi']
        s.entry = []
        for p in s.phis:
            for v, b in p['in']:
                if b == src: s.entry.append(E.val(S0, v)); break
        s.cls = [s.preclass(p, e) for p, e in zip(s.phis, s.entry)]       # per phi
        s.cells = {}                        # (oid, off, size) -> [entry value, cls, generic]
        s.W = {}                            # oid -> list of layers in terms of s.kap
        s.mode = {}                         # oid -> 'fold' for array accumulators
        s.kap = fresh('it', 0, KHI)
        s.gens = {}; s.gpsym = {}
        s.anyg = {}; s.osc = {}; s.fold = {}; s.pfs = {}; s.pf = {}; s.lastw = {}
    # ---- first guess for counters the code steps by a constant (checked like every closed form)
    def preclass(s, p, e):
        if isinstance(e, Ptr) and isinstance(e.obj, int): return s.preptr(p, e)
        if not isinstance(e, (int, Poly)) or isinstance(e, bool): return None
        df = s.fn.get('defs')
        if df is None: df = s.fn['defs'] = {i['d']: i for b in s.fn['blocks'] for i in b if i['o'] == 'add'}
        cs = set()
        for v, b in p['in']:
            if b not in s.set: continue
            i = df.get(v[1]) if v[0] == 'v' else None
            if i is None or i['a'][0] != ['v', p['d']] or i['a'][1][0] != 'i': return None
            w, c = i['a'][1][1:]
            if w < 32: return None
            cs.add(c - (1 << w) if c >= 1 << (w - 1) else c)
        return Cls('aff', cs.pop()) if len(cs) == 1 else None
    def preptr(s, p, e):
        df = s.fn.get('geps')
        if df is None: df = s.fn['geps'] = {i['d']: i for b in s.fn['blocks'] for i in b if i['o'] == 'getelementptr'}
        inner = {i.get('d') for b in s.set for i in s.fn['blocks'][b]}
        r = None
        for v, b in p['in']:
            if b not in s.set: continue
            i = df.get(v[1]) if v[0] == 'v' else None
            if i is None or i['base'] != ['v', p['d']]: return None
            c = i['off']
            for o, sc in i['var']:
                if o[0] == 'v' and (o[1] in inner or o[1] not in s.S0.frames[-1].regs): return None
                x = s.E.val(s.S0, o)
                if not isinstance(x, (int, Poly)) or isinstance(x, bool): return None
                c = add(c, scale(x, sc))
            if isinstance(c, Poly): c = s.E.addr(s.S0, c)
            if r is not None and r != c: return None
            r = c
        return Cls('aff', r) if r is not None and r != 0 else None
    # ---- generic values
    def generic(s, key, v):
        g = s.gens.get(key)
        if g is None:
            if isinstance(v, bool) or (isinstance(v, N) and v.s == 'b'): g = fresh('gb', sort='b')
            elif isinstance(v, (int, Poly)):
                w = s.width.get(key, 64)
                g = fresh('g', -(1 << (w - 1)), (1 << (w - 1)) - 1)
            elif isinstance(v, N): g = fresh('gf', sort=v.s)
            elif isinstance(v, Ptr):
                # stay on element boundaries (only a guess: the closed form is verified afterwards)
                et = s.E.elemtype(s.S0.mem[v.obj]) if v.obj in s.S0.mem else None
                es = et[0] if et else 1
                gp = fresh('gp', -(1 << 56), 1 << 56)
                g = Ptr(v.obj, add(v.off, scale(gp, es)))
                s.gpsym[key] = (gp, es)
            elif isinstance(v, tuple): g = tuple(s.generic((key, i), x) for i, x in enumerate(v))
            elif v is UNDEF: g = UNDEF
            else: raise Unsupported('generic %r' % (v,))
            s.gens[key] = g
        return g
    def at(s, key, e, c, kap, gen=True):
        """value at iteration kap"""
        if c is None or c.kind == 'acc':
            if gen: return s.generic(key, e)
            return s.accval(key, e, c, kap)
        if c.kind == 'inv': return e
        if c.kind == 'any': return s.anyg[key] if gen else s.anysym(c.f)
        if c.kind == 'aff':
            if isinstance(e, Ptr): return Ptr(e.obj, add(e.off, mul(kap, c.c)))
            return add(e, mul(kap, c.c))
        if c.kind == 'prev':      # value computed by the previous iteration
            s.noany(c.f)
            if any(g_ in fvv(c.f) for g_, _, _ in s.pfs.values()): raise Unsupported('value depends on an array accumulator')
            pv = subst(c.f, {symnode(s.kap): sub(kap, 1)})
            if e is UNDEF: return pv
            return s.E.vite(eq0(kap), e, pv)
        if c.kind == 'tup':
            return tuple(s.at((key, i), x, ci, kap, gen) for i, (x, ci) in enumerate(zip(e, c.c)))
        raise Unsupported('cls ' + c.kind)
    # ---- storage that a conditional path writes before it is read (dead at the start of an iteration): any value
    def anysym(s, t):
        k, w = t
        return fresh('any', -(1 << (w - 1)), (1 << (w - 1)) - 1) if k == 'i' else fresh('any', sort='f%d' % w)
    def noany(s, *xs):
        if s.anyg:
            a = frozenset().union(*[fv(g) for g in s.anyg.values()])
            for x in xs:
                if x is not UNDEF and x is not None and not a.isdisjoint(fvv(x)): raise Unsupported('value of a conditionally written temporary')
    # ---- build the state at iteration kap
    def build(s, kap, N=None, gen=True, infirst=False):
        st = s.S0.fork()
        f = st.frames[-1]
        s.E.assume_iter = True
        if isinstance(kap, Poly):
            st.assume(ge0(kap))
        vals = []
        for i, p in enumerate(s.phis):
            vals.append((p['d'], s.at(('phi', i), s.entry[i], s.cls[i], kap, gen)))
        for (oid, off, size), ent in s.cells.items():
            v = s.at(('cell', oid, off, size), ent[0], ent[1], kap, gen)
            s.E.write(st, oid, off, size, v)
        m = {symnode(s.kap): kap}
        for oid, Wl in s.W.items():
            o = st.wobj(oid)
            if s.mode.get(oid) == 'fold':
                if gen:
                    o.layers = (); o.cells = {}
                    o.base = ('arr', s.pfsym(oid)[0], s.fold[oid][0])
                    if oid in s.pf: s.genread(oid)
                else:
                    pf = s.pfold(oid, kap)
                    if pf is not None: o.layers = o.layers + (pf,)
                continue
            for l in Wl:
                for r in s.lift(l, kap, gen): o.layers = o.layers + (r,)
        for d, v in vals: f.regs[d] = v
        f.prev = s.src; f.blk = s.h; f.ip = len(s.phis)
        for hh in list(f.loops):
            f.loops[hh] = [None, 0] if hh == s.h else f.loops[hh]
        f.loops.pop(s.h, None)
        return st
    def lift(s, l, n, gen):
        """layer l written by iteration kap, for all iterations < n"""
        if isinstance(n, int) and n <= 0: return []
        j = fresh('j', 0, (iv(n)[1] - 1) if iv(n)[1] != INF else None)
        m = {symnode(s.kap): j}
        m.update(s.accsub(j))
        # generic values classified since the layer was recorded
        for key, g in s.gens.items():
            if g is UNDEF or isinstance(g, tuple): continue
            c = s.clsof(key); e = s.entry_of(key)
            if c is None or c.kind not in ('inv', 'aff') or e is UNDEF: continue
            v = s.at(key, e, c, j)
            if isinstance(g, Ptr):
                gp, es = s.gpsym[key]
                if isinstance(v, Ptr):
                    q = pdiv(sub(v.off, e.off), es)
                    if q is not None: m[symnode(gp)] = q
            else: m[symnode(g)] = v
        s.noany(l.off, l.val, getattr(l, 'guard', None), *[c for k_, c in getattr(l, 'bs', ())])
        for g_, _, _ in s.pfs.values():
            for y in (l.off, l.val, getattr(l, 'guard', None)):
                if y is not UNDEF and g_ in fvv(y): raise Unsupported('write depends on an array accumulator')
        if isinstance(l, Point):
            return [Range([(j, n)], True, subst(l.off, m), l.size, subst(l.val, m) if l.val is not UNDEF else UNDEF)]
        if isinstance(l, Range):
            l2 = l.subst(m)
            # fresh inner binders
            mm = {}; bs = []
            for k, c in l2.bs:
                nk = fresh('b', symnode(k).lo, symnode(k).hi); mm[symnode(k)] = nk; bs.append((nk, subst(c, mm)))
            return [Range([(j, n)] + bs, subst(l2.guard, mm), subst(l2.off, mm), l.size, subst(l2.val, mm) if l2.val is not UNDEF else UNDEF)]
        if isinstance(l, Fill):
            # consecutive fills: only if independent of the iteration
            if symnode(s.kap) not in fv(l.off) and symnode(s.kap) not in fv(l.n): return [l]
            raise Unsupported('fill in loop')
        raise Unsupported('layer in loop')
    # ---- accumulators
    def accs(s):
        r = []
        for i, c in enumerate(s.cls): s.collect_acc(('phi', i), s.entry[i], c, r)
        for k, ent in s.cells.items(): s.collect_acc(('cell',) + k, ent[0], ent[1], r)
        return r
    def collect_acc(s, key, e, c, r):
        if c is None: return
        if c.kind == 'tup':
            for i, (x, ci) in enumerate(zip(e, c.c)): s.collect_acc((key, i), x, ci, r)
        elif c.kind == 'acc': r.append((key, e, c))
    def accval(s, key, e, c, kap):
        al = s.accs()
        idx = [i for i, (k, _, _) in enumerate(al) if k == key][0]
        inits, gens, steps, widths = s.acclist()
        for g_, _, _ in s.pfs.values():
            if any(g_ in fv(x) for x in steps): raise Unsupported('accumulator depends on an array accumulator')
        if any(x is UNDEF for x in inits):
            raise Unsupported('accumulator starts undefined')
        # bring int inits to signed range
        r = mk_fold(idx, kap, inits, s.kap, gens, steps, widths)
        if isinstance(e, Ptr): return Ptr(e.obj, add(e.off, scale(r, s.gpsym[key][1])))
        return r
    def accsub(s, kap):
        """generic accumulator symbols -> their folds at iteration kap"""
        m = {}
        for k, e, c in s.accs():
            g = s.gens[k]
            if isinstance(g, Ptr):
                gp, es = s.gpsym[k]
                m[symnode(gp)] = pdiv(sub(s.accval(k, e, c, kap).off, e.off), es)
            elif g is UNDEF: continue
            else: m[symnode(g)] = s.accval(k, e, c, kap)
        return m
    # ---- array accumulators: regions written at positions that are not linear in the iteration
    def acclist(s):
        """(inits, generic symbols, steps, widths) of the scalar accumulators"""
        inits = []; gens = []; steps = []; widths = []
        for k, x, cc in s.accs():
            s.noany(cc.f)
            if isinstance(x, Ptr):
                gp, es = s.gpsym[k]
                stp = pdiv(sub(cc.f.off, x.off), es)
                if stp is None: raise Unsupported('pointer accumulator off element boundaries')
                inits.append(0); gens.append(gp); steps.append(stp); widths.append(None)
            else:
                inits.append(x); gens.append(s.gens[k]); steps.append(cc.f)
                widths.append(s.width.get(k, 64) if sort_of(x) == 'i' else None)
        return inits, gens, steps, widths
    def pfsym(s, oid):
        """(generic content, generic element index, generic element) of an array accumulator"""
        r = s.pfs.get(oid)
        if r is None:
            es, k, w = s.fold[oid]
            so = 'i' if k == 'i' else 'f%d' % w
            nm = fresh('gc', 0, None); nm = show(nm)
            r = s.pfs[oid] = (arr('@' + nm, so, *((-(1 << (8 * es - 1)), (1 << (8 * es - 1)) - 1) if k == 'i' else ())), fresh('p', 0, 1 << 56),
                              fresh('ga', -(1 << (8 * es - 1)), (1 << (8 * es - 1)) - 1) if k == 'i' else fresh('ga', sort=so))
        return r
    def pfold(s, oid, kap):
        if isinstance(kap, int) and kap <= 0: return None
        if oid not in s.pf: return None
        g, p, acc = s.pfsym(oid); es, k, w = s.fold[oid]
        inits, gens, steps, widths = s.acclist()
        if any(x is UNDEF for x in inits): raise Unsupported('accumulator starts undefined')
        s.noany(s.pf[oid])
        for x in steps:
            if g in fv(x): raise Unsupported('accumulator depends on an array accumulator')
        return PFold(s.kap, kap, p, [acc] + gens, inits, [s.pf[oid]] + steps, es, [8 * es if k == 'i' else None] + widths)
    def genread(s, oid):
        g, p, acc = s.pfsym(oid); es, k, w = s.fold[oid]
        def f(st, idx):
            o = s.S0.mem[oid].clone(None)
            pf = s.pfold(oid, s.kap)
            if pf is not None: o.layers = o.layers + (pf,)
            return s.E.read(st, o, scale(idx, es), es, k, w)
        s.E.genread[g] = f
    def genacc(s):
        """obligations may use the closed forms of the accumulators"""
        def f(): return {k: v for k, v in s.accsub(s.kap).items()}
        for k, e, c in s.accs():
            g = s.gpsym[k][0] if isinstance(e, Ptr) else s.gens[k]
            if isinstance(g, Poly): s.E.genread[symnode(g)] = f
    def needfold(s, oid, l):
        """is l a write that has no linear closed form?"""
        if isinstance(l, PFold): return True
        if not isinstance(l, (Point, Range)): return False
        gs = s.gensyms(); f = fv(l.off)
        for k, g in s.gens.items():
            if g is UNDEF or isinstance(g, tuple): continue
            c = s.clsof(k)
            if not (s.gsyms(k) & f): continue
            if c is not None and c.kind == 'acc': return True
        if f & gs: return False         # not classified yet
        ks = [s.kap] + ([k for k, c in l.bs] if isinstance(l, Range) else [])
        return s.E.lin(l.off, ks) is None
    def tofold(s, oid, l):
        """treat the region as an array accumulator from now on"""
        if isinstance(l, PFold):
            es = l.size; so = sort_of(l.accs[0]); t = (es, 'i', 8 * es) if so == 'i' else (es, 'f', int(so[1:]))
        else:
            if l.val is UNDEF: raise Unsupported('array accumulator of undefined values')
            k, w = s.E.sortkey(l.val)
            if k == 'p': raise Unsupported('array accumulator of pointers')
            t = (l.size, k, w if k == 'f' else 8 * l.size)
        if DBG: print('     FOLD', oid, t)
        s.mode[oid] = 'fold'; s.fold[oid] = t; s.W[oid] = []
        for key in [k for k in s.cells if k[0] == oid]: del s.cells[key]
    def refold(s, oid, start, latch, conds, merge):
        E = s.E
        g, p, acc = s.pfsym(oid); es, k, w = s.fold[oid]
        vs = []; gn = g
        for x, b in latch:
            o = x.mem[oid]
            for l in o.layers:
                if isinstance(l, Fill): raise Unsupported('fill in an array accumulator')
                if l.size != es or (not isinstance(l, PFold) and pdiv(l.off, es) is None): raise Unsupported('array accumulator off element boundaries')
            if any(cs != es or x0 % es for x0, (cs, cv) in o.cells.items()): raise Unsupported('cells in an array accumulator')
            x2 = x.fork(); x2.assume(ge0(p)); x2.assume(le(scale(add(p, 1), es), o.size))
            v = E.read(x2, o, scale(p, es), es, k, w)
            if v is UNDEF: raise Unsupported('array accumulator of undefined values')
            vs.append((x2, v))
        def close(x2, v):
            def ev(t, facts):
                if t is None or isinstance(t, (int, bool, str, float)): return t
                if gn not in fv(t): return t
                R = lambda y: ev(y, facts)
                if isinstance(t, Poly):
                    r = 0
                    for m, c in t.t:
                        q = c
                        for a in m:
                            z = R(a); q = mul(q, atom(z) if isinstance(z, N) else z)
                        r = add(r, q)
                    return r
                if t.k == 'sel' and t.a[0] is gn:
                    if t.a[1] is p: r = acc
                    else:
                        st = x2.fork()
                        for f in facts: st.assume(f)
                        if not E.yes(st, eq(t.a[1], p)): raise Unsupported('array accumulator reads another element')
                        r = acc
                    return symnode(r) if isinstance(r, Poly) else r
                if t.k in ('ite', 'fite'):
                    c = R(t.a[0]); a = ev(t.a[1], facts + (t.a[0],)); b = ev(t.a[2], facts + (bnot(t.a[0]),))
                    r = ite(c, a, b) if t.k == 'ite' else fite(c, a, b)
                    return r
                return rebuild(t, R)
            return ev(v, ())
        step = merge([close(x2, v) for x2, v in vs])
        if gn in fv(step): raise Unsupported('control flow depends on an array accumulator ' + show(step)[:600])
        old = s.pf.get(oid)
        s.pf[oid] = step
        return old is None or not (step is old or (isinstance(step, int) and isinstance(old, int) and step == old))

    # ---- one generic iteration
    def iterate(s, st):
        E = s.E; d = s.d; hset = s.set; h = s.h
        def until(x, f, tgt):
            n = len(x.frames)
            if n > d: return None
            if n < d or f is None:
                return 'unw' if n < d else None
            if tgt == h: return 'latch'
            if tgt not in hset: return 'exit'
            return None
        res = E.run(st, until)
        latch = []; exits = []
        for x, tag in res:
            if tag == 'stop': continue
            if tag == 'uncaught' or (isinstance(tag, tuple) and tag[0] == 'unw'):
                if not E.feasible(x): continue
                raise Unsupported('exception leaves the function from a summarised loop')
            if tag == 'done': raise Unsupported('return from within loop')
            if tag[0] == 'latch': latch.append((x, tag[2]))
            else: exits.append((x, tag[1], tag[2]))
        return latch, exits

    def go(s):
        E = s.E
        E.collect = False
        s.width = {}
        for i, p in enumerate(s.phis):
            t = E.p.types[p['t']]
            if t['k'] == 'i': s.width[('phi', i)] = t['w']
        stable = False
        s.peel = 0; s.bound = None; s.bounds = None
        Nn = None
        exits = None
        for rnd in range(16):
            kap = s.kap
            # (re)start: bound kappa by the trip count when it is known
            st = s.build(kap)
            if Nn is not None: st.assume(le(kap, Nn))
            elif s.bound is not None: st.assume(le(kap, s.bound))
            start = st.fork()
            pc0 = st.pc
            npc = len(pc0)
            try: latch, exits = s.iterate(st)
            except Unsupported as e:
                # a read of what earlier iterations wrote cannot be resolved: try as an array accumulator
                oid = getattr(e, 'oid', None)
                if oid is None or s.mode.get(oid) == 'fold' or oid not in s.lastw or oid not in s.W: raise
                if DBG: print('     unresolved:', str(e)[:200])
                s.tofold(oid, s.lastw[oid]); continue
            latch = [(x, b) for x, b in latch if E.feasible(x)]
            if DBG: print('  LOOP', s.fn.get('dem', '')[:90], 'rnd', rnd, 'latch', len(latch), 'exits', len(exits), 'N', show(Nn) if Nn is not None else None)
            if not latch:
                # at most one iteration from here: just run it
                stable = True
                s.once = True
                break
            changed = s.classify(start, latch, npc)
            Nnew = s.trip(start, latch, exits, npc)
            if DBG: print('     cls', s.cls, 'cells', {k: v[1] for k, v in s.cells.items()}, 'W', s.W, 'N', show(Nnew) if Nnew is not None else None)
            if s.odo and Nnew is None and changed:
                dg = s.digits()
                if dg: raise Odometer(dg)
            if Nnew is None and s.bound is not None and s.bound is not s.bounds:
                s.bounds = s.bound; changed = True
            if Nnew is not Nn and not (isinstance(Nn, int) and isinstance(Nnew, int) and Nn == Nnew):
                Nn = Nnew; changed = True
                if Nn is not None and iv(Nn)[1] != INF and iv(Nn)[1] < symnode(s.kap).hi:
                    # tighter generic iteration symbol
                    nk = fresh('it', 0, iv(Nn)[1])
                    s.rename(nk)
            if not changed:
                stable = True; break
        if not stable: raise Unsupported('no inductive closed form found for loop in %s' % s.fn.get('dem', '')[:160])
        if getattr(s, 'once', False):
            E.collect = s.collect0
            st = s.S0.fork(); f = st.frames[-1]
            E.phis(st, f, s.src, s.h)
            f = st.frames[-1]; f.loops.pop(s.h, None)
            latch, exits = s.iterate(st)
            latch = [(x, b) for x, b in latch if E.feasible(x)]
            if latch: raise Unsupported('loop of unknown shape')
            return exits
        if Nn is None or (isinstance(Nn, int) and Nn <= 16):
            E.collect = s.collect0
            r = LoopSum(E, s.S0, s.src, s.h, s.collect0).unroll(9 if Nn is None else Nn + 1)
            if r is not None: return r
        # ---- verification round (obligations collected)
        E.collect = s.collect0
        if s.collect0:
            st = s.build(s.kap)
            if Nn is not None: st.assume(lt(s.kap, Nn))
            elif s.bound is not None: st.assume(le(s.kap, s.bound))
            start = st.fork(); npc = len(st.pc)
            s.genacc()
            latch, ex2 = s.iterate(st)
            latch = [(x, b) for x, b in latch if E.feasible(x)]
            E.collect = False
            if not latch: raise Unsupported('verification round: no latch')
            if s.classify(start, latch, npc): raise Unsupported('closed form is not inductive in %s' % s.fn.get('dem', '')[:160])
            E.collect = s.collect0
            E.loopinfo.append((s.fn.get('dem', ''), s.describe(), show(Nn) if Nn is not None else 'first exit'))
        # ---- exit
        if Nn is not None:
            st = s.build(Nn, gen=False)
            if not isinstance(Nn, int): st.assume(ge0(Nn))
        else:
            n = fresh('exit', 0, KHI)
            st = s.build(n, gen=False)
            if s.bound is not None: st.assume(le(n, s.bound))
            else: E.notes.add('termination of a data-dependent loop is not proved: ' + s.fn.get('dem', '')[:120])
            # no exit before iteration n : instantiate at n-1 and 0
            cont = s.contcond
            s.noany(cont)
            if cont is not None and any(g_ in fv(cont) for g_, _, _ in s.pfs.values()): raise Unsupported('loop exit depends on an array accumulator')
            if cont is not None:
                for pt in (sub(n, 1), 0):
                    m = {symnode(s.kap): pt}; m.update(s.accsub(pt) if s.accs() else {})
                    st.assume(bor(eq0(n), subst(cont, m)))
                if s.accs():      # the accumulators at the exit, one step unfolded
                    for f in s.accsub(n).values():
                        for y in atoms_of(f):
                            if y.k != 'fold' or y.a[2] is not n: continue
                            k, accs, steps, inits, cnt, j, w = fold_open(y)
                            p = sub(n, 1); mm = {symnode(k): p}
                            for i, a in enumerate(accs): mm[symnode(a)] = mk_fold(i, p, inits, k, accs, steps, w)
                            so = sort_of(steps[j])
                            ev = (lambda x, z: eq(x, z)) if so == 'i' else (lambda x, z: bnot(bxor(x, z))) if so == 'b' else s.E.feq
                            ya = atom(y) if so == 'i' else y
                            st.assume(bimp(eq0(n), ev(ya, inits[j])))
                            st.assume(bor(eq0(n), ev(ya, subst(steps[j], mm))))
                m = s.accsub(s.kap) if s.accs() else {}
                st.all = st.all + ((symnode(s.kap), n, subst(cont, m)),)
        latch, exits = s.iterate(st)
        if Nn is not None:
            for x, b in latch:
                if E.feasible(x):
                    raise Unsupported('trip count not confirmed in %s' % s.fn.get('dem', '')[:160])
        return [e for e in exits if E.feasible(e[0])]
    def unroll(s, n):
        """execute the loop by case splitting, if it always ends within n iterations"""
        E = s.E
        st = s.S0.fork(); f = st.frames[-1]
        E.phis(st, f, s.src, s.h); st.frames[-1].loops.pop(s.h, None)
        cur = [st]; out = []
        for i in range(n):
            nxt = []
            for x in cur:
                latch, exits = s.iterate(x)
                out += [e for e in exits if E.feasible(e[0])]
                for y, b in latch:
                    if not E.feasible(y): continue
                    E.phis(y, y.frames[-1], b, s.h); y.frames[-1].loops.pop(s.h, None)
                    nxt.append(y)
            if not nxt: return out
            if len(nxt) > 40 or len(out) > 200: return None
            cur = nxt
        return None
    def describe(s):
        return '%s %s %s' % (s.cls, [v[1] for v in s.cells.values()], {k: len(v) for k, v in s.W.items()})
    def rename(s, nk):
        m = {symnode(s.kap): nk}
        for oid in s.W: s.W[oid] = [l.subst(m) for l in s.W[oid]]
        def rc(c):
            if c is None: return c
            if c.kind == 'tup': return Cls('tup', tuple(rc(x) for x in c.c))
            return Cls(c.kind, subst(c.c, m), subst(c.f, m) if c.kind != 'any' else c.f)
        s.cls = [rc(c) for c in s.cls]
        for k in s.cells: s.cells[k][1] = rc(s.cells[k][1])
        s.kap = nk

    # ---- classification of one generic iteration
    def classify(s, start, latch, npc):
        E = s.E
        changed = False
        conds = []
        for x, b in latch:
            # (obligations met on the way are no control flow)
            gcs = {g_ for g_, _, _ in s.pfs.values()} | s.gensyms()
            cs = [c for c in x.pc[npc:] if not (gcs and c in x.ob and fvv(c) & gcs)]
            conds.append(band(*cs) if not any(c is False for c in cs) else False)
        s.lconds = conds
        if len(conds) > 1:
            # some latch path was taken: what all of them have in common holds anyway
            cj = [solver_conj([c]) for c in conds]
            com = set(cj[0]).intersection(*[set(x) for x in cj[1:]])
            conds = [band(*[y for y in x if y not in com]) for x in cj]
        def merge(vals):
            r = vals[-1]
            for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])): r = E.vite(c, v, r)
            return r
        nxt = []
        for i, p in enumerate(s.phis):
            vs = []
            for x, b in latch:
                for v, bb in p['in']:
                    if bb == b: vs.append(E.val(x, v)); break
            nxt.append(merge(vs))
        # memory
        oids = [o for o in start.mem]
        newcells = {}
        newW = {}
        for oid in oids:
            o0 = start.mem[oid]
            objs = []
            for x, b in latch:
                o1 = x.mem.get(oid)
                if o1 is None: raise Unsupported('object vanished in loop')
                if o1.alive != o0.alive: raise Unsupported('object freed in loop')
                objs.append(o1)
            if s.mode.get(oid) == 'fold':
                newW[oid] = []
                if s.refold(oid, start, latch, conds, merge): changed = True
                continue
            if all(o1 is o0 or (o1.cells == o0.cells and o1.layers == o0.layers) for o1 in objs): continue
            # layers
            n0 = len(o0.layers)
            if any(o1.layers[:n0] != o0.layers for o1 in objs):
                # a top point may have been replaced in place
                pass
            add_ = []
            for o1, c in zip(objs, conds):
                k = n0
                if o1.layers[:n0] != o0.layers:
                    # find common prefix
                    k = 0
                    while k < n0 and k < len(o1.layers) and o1.layers[k] is o0.layers[k]: k += 1
                    rest0 = o0.layers[k:]
                    ok = all(isinstance(l, Point) and any(isinstance(l1, Point) and l1.off is l.off and l1.size == l.size for l1 in o1.layers[k:]) or
                             (isinstance(l, Point) and any(key[0] == oid and key[1] is l.off for key in s.cells)) for l in rest0)
                    if not ok: raise Unsupported('layer history rewritten')
                for l in o1.layers[k:]:
                    add_.append((l, c))
            bad = [l for l, c in add_ if s.needfold(oid, l)]
            if bad:
                s.tofold(oid, bad[0]); newW[oid] = []; changed = True
                continue
            multi = len(objs) > 1
            # constant-offset cells
            keys = set()
            for o1 in objs:
                for off in set(o1.cells) | set(o0.cells):
                    if o1.cells.get(off) != o0.cells.get(off): keys.add(off)
            for off in keys:
                szs = {o1.cells[off][0] for o1 in objs if off in o1.cells} | ({o0.cells[off][0]} if off in o0.cells else set())
                if len(szs) != 1: raise Unsupported('cell size change in loop')
                size = szs.pop()
                vs = []
                for x, (o1) in zip(latch, objs):
                    c = o1.cells.get(off)
                    vs.append(c[1] if c else E.read_base(start, o0, off, size, 'i', 8 * size))
                ent = o0.cells[off][1] if off in o0.cells else UNDEF
                newcells[(oid, off, size)] = (ent, merge(vs))
            # layer writes: points at iteration-independent offsets are accumulator cells
            lay = []
            kn = symnode(s.kap)
            gs = s.gensyms()
            for l, c in add_:
                if isinstance(l, Point) and fv(l.off).isdisjoint(gs | {kn}) and s.mode.get(oid) != 'fold' and all(fv(l.off) <= s.s0syms(l.off) for _ in (0,)):
                    if multi:
                        # value over the paths
                        k_, w_ = E.sortkey(l.val) if l.val is not UNDEF else ('i', None)
                        vs = []
                        for (x, b), o1 in zip(latch, objs):
                            vs.append(E.read(x, o1, l.off, l.size, k_, w_ if w_ else 8 * l.size))
                        v = merge(vs)
                    else: v = l.val
                    key = (oid, l.off, l.size)
                    if key not in newcells:
                        k_, w_ = E.sortkey(v) if v is not UNDEF else ('i', None)
                        if key in s.cells: e = s.cells[key][0]
                        else: e = E.read(s.S0, s.S0.mem[oid], l.off, l.size, k_, w_ if w_ else 8 * l.size)
                        newcells[key] = (e, v)
                    continue
                if not multi or c is True: lay.append(l)
                elif isinstance(l, Point): lay.append(Range([], c, l.off, l.size, l.val))
                elif isinstance(l, Range): lay.append(Range(l.bs, band(l.guard, c), l.off, l.size, l.val))
                else: raise Unsupported('conditional layer')
            if multi and len(lay) == len(objs):
                # every path writes the same place once: one write of a path-dependent value
                ps = [x for x, c in add_]
                if all(isinstance(l, Point) and l.val is not UNDEF for l in ps) and len(ps) == len(objs) and all(s.samelayerpos(l, ps[0]) for l in ps[1:]) \
                   and all(c is conds[i] for i, (l, c) in enumerate(add_)) and len({E.sortkey(l.val) for l in ps}) == 1:
                    lay = [Point(ps[0].off, ps[0].size, merge([l.val for l in ps]))]
            if lay: newW[oid] = lay; s.lastw[oid] = lay[-1]
        # objects created by the iteration must be dead afterwards
        for x, b in latch:
            for oid in x.mem:
                if oid not in start.mem and x.mem[oid].alive and x.mem[oid].kind == 'heap':
                    raise Unsupported('allocation survives a loop iteration: %s' % x.mem[oid].name)
                if oid not in start.mem and x.mem[oid].kind == 'stack':
                    pass
        for x, b in latch:
            if x.live != start.live: raise Unsupported('allocation count changes in loop')
        # phis
        ncls = []
        for i, p in enumerate(s.phis):
            c = s.cl(('phi', i), s.entry[i], start.frames[-1].regs[p['d']], nxt[i], s.cls[i])
            if c is None or s.cls[i] is None or c.key() != s.cls[i].key(): changed = True
            ncls.append(c)
        # cells: newly modified ones become generic first
        for key, (e, v) in newcells.items():
            if key not in s.cells:
                s.width[('cell',) + key] = 8 * key[2]
                s.cells[key] = [e, None]
                changed = True
                continue
            ent = s.cells[key]
            if ent[1] is not None and ent[1].kind == 'any': continue
            cur = s.at(('cell',) + key, ent[0], ent[1], s.kap)
            c = s.cl(('cell',) + key, ent[0], cur, v, ent[1])
            if c is None or ent[1] is None or c.key() != ent[1].key(): changed = True
            if c is None and ent[0] is UNDEF and ent[1] is not None and ent[1].kind == 'prev':
                s.osc[key] = s.osc.get(key, 0) + 1
                if s.osc[key] >= 2 and v is not UNDEF and not isinstance(v, (Ptr, tuple)):
                    k_, w_ = E.sortkey(v)
                    c = Cls('any', None, (k_, w_ if k_ == 'f' else 8 * key[2])); s.anyg[('cell',) + key] = s.anysym(c.f)
            ent[1] = c
        for key, ent in s.cells.items():
            if key not in newcells and not (ent[1] is not None and ent[1].kind in ('inv', 'any')):
                # unchanged in this round: the value stays what it was at the start of the iteration
                if ent[1] is None or ent[1].kind == 'acc':
                    ent[1] = Cls('inv'); changed = True
                elif ent[1].kind == 'prev' and ent[0] is UNDEF and (s.gensyms() | {symnode(s.kap)}).isdisjoint(fvv(ent[1].f)):
                    pass      # rewritten with the same value
                elif ent[1].kind in ('aff', 'prev'):
                    # closed form says it moves but the body did not write it
                    raise Unsupported('cell classification unstable %s %s' % (key, ent))
        s.cls = ncls
        # regions
        for oid in set(newW) | set(s.W):
            nl = newW.get(oid, []); ol = s.W.get(oid, [])
            if s.mode.get(oid) == 'fold':
                s.W[oid] = nl
                continue
            if [l.key() for l in nl] != [l.key() for l in ol]:
                s.W[oid] = nl; changed = True
        return changed
    # ---- counters that step like the digits of a number: [(cell, extent)], innermost first (a guess, verified by Nest)
    def digits(s):
        cs = [(k, ent) for k, ent in s.cells.items() if ent[1] is not None and ent[1].kind == 'acc' and ent[0] is not UNDEF and isinstance(ent[0], int) and ent[0] == 0 and not isinstance(ent[0], bool)]
        if len(cs) < 2 or s.phis: return None
        gs = {}
        for k, ent in cs:
            g = s.gens.get(('cell',) + k)
            if not isinstance(g, Poly): return None
            gs[k] = g
        ats = set()
        for k, ent in cs:
            if not isinstance(ent[1].f, Poly): return None
            for y in atoms_of(ent[1].f):
                if y.k == 'ite':
                    todo = [y.a[0]]
                    while todo:
                        c = todo.pop()
                        if isinstance(c, bool): continue
                        if c.k == 'eq0': ats.add(c)
                        elif c.k in ('and', 'or', 'not'): todo += [z for z in c.a]
        allg = s.gensyms() | {symnode(s.kap)}
        ext = {}; dig = []
        for c in ats:
            for k, g in gs.items():
                for sg in (1, -1):
                    n = sub(add(g, 1), scale(c.a[0], sg))
                    if fv(n).isdisjoint(allg): ext.setdefault(k, (n, c))
        left = [k for k, ent in cs if k in ext]
        m = {c: False for n, c in ext.values()}
        while left:
            nx = None
            for k in left:
                v = decide(s.cells[k][1].f, m)
                if isinstance(v, Poly) and sub(v, gs[k]) == 1: nx = k; break
            if nx is None: return None
            dig.append((nx, ext[nx][0])); left.remove(nx); m[ext[nx][1]] = True
        return dig if len(dig) >= 2 else None
    def s0syms(s, off): return fv(off)
    def samelayerpos(s, a, b): return a.size == b.size and (a.off is b.off or (isinstance(a.off, int) and a.off == b.off))
    def gsyms(s, key):
        g = s.gens[key]
        if isinstance(g, Ptr): return fv(s.gpsym[key][0])
        if isinstance(g, tuple) or g is UNDEF or g is None: return frozenset()
        return fv(g)
    def gensyms(s):
        r = set()
        for k in s.gens: r |= s.gsyms(k)
        return r
    def cl(s, key, e, cur, nx, old):
        E = s.E
        if isinstance(nx, tuple):
            cs = tuple(s.cl((key, i), x, y, z, old.c[i] if old is not None and old.kind == 'tup' else None) for i, (x, y, z) in enumerate(zip(e, cur, nx)))
            return Cls('tup', cs)
        if e is UNDEF and nx is UNDEF: return Cls('inv')
        gs = s.gensyms(); kn = symnode(s.kap)
        # a value already closed: check that the closed form is reproduced
        if old is not None and old.kind in ('inv', 'aff', 'prev'):
            want = s.at(key, e, old, add(s.kap, 1))
            if s.same(want, nx): return old
            if old.kind != 'prev' : 
                # fall back to generic
                return None
            return None
        g = s.gens.get(key)
        if nx is UNDEF: raise Unsupported('loop-carried value becomes undefined')
        if e is UNDEF and cur is UNDEF:
            if not (fv(nx) & gs): return Cls('prev', None, nx)
            return None
        if isinstance(nx, Ptr):
            if not isinstance(cur, Ptr) or nx.obj != cur.obj: raise Unsupported('loop-carried pointer changes object')
            dlt = sub(nx.off, cur.off)
        elif isinstance(nx, (int, Poly)) and not isinstance(nx, bool):
            if isinstance(cur, Ptr): raise Unsupported('ptr/int phi')
            dlt = sub(nx, cur)
            if isinstance(dlt, Poly): dlt = E.strip(dlt, 1 << s.width.get(key, 64))
        else: dlt = None
        if dlt is not None:
            if isinstance(dlt, int) and dlt == 0: return Cls('inv')
            if fv(dlt).isdisjoint(gs | {kn}): 
                w = s.width.get(key, 64)
                if isinstance(dlt, int) and dlt >= 1 << (w - 1): dlt -= 1 << w
                if isinstance(dlt, int) and dlt < -(1 << (w - 1)): dlt += 1 << w
                return Cls('aff', dlt)
        elif nx is cur: return Cls('inv')
        if fv(nx).isdisjoint(gs):
            return Cls('prev', None, nx)
        # accumulator: only once every other generic symbol in it is an accumulator or itself
        others = fv(nx) & gs
        known = set()
        for k2, g2 in s.gens.items():
            if g2 is UNDEF or isinstance(g2, tuple): continue
            c2 = s.clsof(k2)
            if k2 == key or (c2 is not None and c2.kind == 'acc') or (c2 is None and old is not None): known |= s.gsyms(k2)
        if others <= known: return Cls('acc', None, nx)
        # maybe mutually recursive: accept after a round
        s.tries = getattr(s, 'tries', {})
        s.tries[key] = s.tries.get(key, 0) + 1
        if s.tries[key] >= 2: return Cls('acc', None, nx)
        return None
    def entry_of(s, key):
        if key[0] == 'phi': return s.entry[key[1]]
        if key[0] == 'cell': return s.cells[key[1:]][0] if key[1:] in s.cells else UNDEF
        e = s.entry_of(key[0])
        return e[key[1]] if isinstance(e, tuple) else UNDEF
    def clsof(s, key):
        if key[0] == 'phi': return s.cls[key[1]]
        if key[0] == 'cell': return s.cells[key[1:]][1] if key[1:] in s.cells else None
        c = s.clsof(key[0])
        return c.c[key[1]] if c is not None and c.kind == 'tup' else None
    def same(s, a, b):
        if a is b: return True
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and s.same(a.off, b.off)
        if a is UNDEF or b is UNDEF: return False
        if isinstance(a, int) and isinstance(b, int): return a == b
        return s.prove_same(a, b)
    def prove_same(s, a, b):
        E = s.E
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            st = s.S0.fork(); st.assume(ge0(s.kap))
            return E.yes(st, eq(a, b))
        return False

    # ---- trip count
    def trip(s, start, latch, exits, npc):
        E = s.E
        kn = symnode(s.kap); gs = s.gensyms()
        s.contcond = None; s.bound = None
        if any(c is None for c in s.cls): return None
        s.contcond = bor(*[c for c in s.lconds])
        cands = []
        econds = []
        for x, tgt, b in exits:
            c = band(*[y for y in x.pc[npc:]]) if not any(y is False for y in x.pc[npc:]) else False
            econds.append(c)
        for c in econds:
            for a in conjuncts(c):
                for r in s.solve(start, a): cands.append(r)
        for c in s.lconds:
            for a in conjuncts(c):
                for r in s.solve(start, bnot(a)): cands.append(r)
        seen = set()
        if DBG2: print('    TRIP cands', [show(c) for c in cands], 'exits', [show(c) for c in econds], 'lconds', [show(c) for c in s.lconds], 'pc', [show(c) for c in start.pc[-6:]])
        for n in cands:
            try: s.noany(n)
            except Unsupported: continue
            k = n if isinstance(n, int) else n.id
            if k in seen: continue
            seen.add(k)
            st = s.S0.fork()
            if not E.yes(st, ge0(n)):
                n = ite(ge0(n), n, 0)
                k = n if isinstance(n, int) else n.id
                if k in seen: continue
                seen.add(k)
            # no exit before n
            st1 = start.fork()
            st1.assume(lt(s.kap, n))
            first = all(E.yes(st1, bnot(c), 3.0) for c in econds)
            if not first and s.bound is not None: continue
            # no continuation at n
            m = {kn: n}
            acs = s.accsub(n) if s.accs() else {}
            m.update(acs)
            ok = True
            pc0 = [subst(c, m) for c in start.pc]
            st2 = s.S0.fork()
            for c in pc0: st2.assume(c)
            for c in s.lconds:
                if not E.yes(st2, bnot(subst(c, m)), 3.0): ok = False; break
            if not ok: continue
            if first: return n
            s.bound = n       # the loop ends at iteration n at the latest
        return None
    def solve(s, start, a, depth=0):
        """smallest kap >= 0 satisfying atom a (assuming it is monotone), candidates"""
        kn = symnode(s.kap)
        if isinstance(a, bool) or a.k not in ('ge0', 'eq0', 'not'): return []
        if a.k == 'not':
            if a.a[0].k != 'eq0': return []
            return []
        p = a.a[0]
        ln = s.E.lin(p, [s.kap])
        if ln is None:       # wrapped values: solve for either branch of an ite (the candidates are verified)
            its = [y for y in atoms_of(p) if y.k == 'ite' and kn in fv(y)] if isinstance(p, Poly) and depth < 2 else []
            r = []
            for y in its[:1]:
                for z in y.a[1:]:
                    q = replace_atoms(p, {y: z})
                    if isinstance(q, Poly): r += s.solve(start, eq0(q) if a.k == 'eq0' else ge0(q), depth + 1)
            return r
        c, (b,) = ln
        if isinstance(b, int):
            if b == 0: return []
            if a.k == 'eq0':
                if b < 0: b = -b; c = neg(c)
                return [neg(c)] if b == 1 else [div(neg(c), b)]
            if b > 0:
                # b*k + c >= 0  <=>  k >= ceil(-c/b)
                return [neg(c)] if b == 1 else [div(add(neg(c), b - 1), b)]
            return []
        # symbolic step
        pos = s.E.decide(start, ge0(sub(b, 1)))
        if pos is False and s.E.yes(start, lt(b, 0)):
            if a.k == 'ge0': return []
            b = neg(b); c = neg(c); pos = True
        if pos is not True: return []
        q = pdiv(neg(c), b)
        if a.k == 'eq0': return [q] if q is not None else [div(neg(c), b)]
        return [q] if q is not None else [div(sub(add(neg(c), b), 1), b)]

def decide(x, m):
    """x with the conditions of m decided"""
    if isinstance(x, bool): return x
    if isinstance(x, N):
        if x in m: return m[x]
        if x.k == 'not': return bnot(decide(x.a[0], m))
        if x.k == 'and': return band(*[decide(y, m) for y in x.a])
        if x.k == 'or': return bor(*[decide(y, m) for y in x.a])
        return x
    if isinstance(x, Poly):
        for y in atoms_of(x):
            if y.k == 'ite':
                v = ite(decide(y.a[0], m), decide(y.a[1], m), decide(y.a[2], m))
                w = sub(x, atom(y))
                if v is not x and not any(z is y for z in atoms_of(w)): return add(w, v)
    return x

class Nest(LoopSum):
    """one digit of an odometer loop: the loop over it, the inner digits running through their ranges in each iteration.
    The body is verified to step the digits as an odometer does and not to leave the loop before the last digit overflows."""
    def __init__(s, E, S0, src, h, collect, digits, level):
        LoopSum.__init__(s, E, S0, src, h, collect)
        if s.phis: raise Unsupported('odometer with header phis')
        s.dg = digits; s.lv = level
        k, s.n = digits[level]
        s.cells[k] = [0, Cls('aff', 1)]
        hi = iv(s.n)[1]
        s.kap = fresh('it', 0, hi - 1 if hi != INF else KHI)
    def val(s, st, k): return s.E.read(st, st.mem[k[0]], k[1], k[2], 'i', 8 * k[2])
    def iterate(s, st):
        E = s.E; cur = [s.val(st, k) for k, n in s.dg]
        nxt = list(cur)
        if s.lv:
            x = Nest(E, st, s.src, s.h, E.collect, s.dg, s.lv - 1).go()
            b = s.src
            for i in range(s.lv): nxt[i] = 0
        else:
            latch, exits = LoopSum.iterate(s, st)
            if any(E.feasible(e[0]) for e in exits): raise Unsupported('odometer loop ends early')
            latch = [(x, b) for x, b in latch if E.feasible(x)]
            if not latch: raise Unsupported('odometer: no latch')
            for x, b in latch:
                want = []; carry = True
                over = [eq(add(c, 1), n) for c, (k, n) in zip(cur, s.dg)]
                allo = band(*over)
                for c, (k, n), o in zip(cur, s.dg, over):
                    w = ite(carry, ite(o, ite(allo, n, 0), add(c, 1)), c) if carry is not True else ite(o, ite(allo, n, 0), add(c, 1))
                    want.append(w)
                    carry = o if carry is True else band(carry, o)
                for w, (k, n) in zip(want, s.dg):
                    if not E.yes(x, eq(s.val(x, k), w)): raise Unsupported('not an odometer')
            # the paths differ in the digits only
            x, b = latch[0]
            dk = {}
            for k, n in s.dg: dk.setdefault(k[0], set()).add(k[1])
            for y, b2 in latch[1:]:
                if set(y.mem) != set(x.mem) or y.live != x.live: raise Unsupported('odometer paths differ')
                for oid, o in x.mem.items():
                    o2 = y.mem[oid]
                    if o is o2 or o.kind == 'stack' and oid not in st.mem: continue
                    d = dk.get(oid, ())
                    if o.alive != o2.alive or o.layers != o2.layers or {a: c for a, c in o.cells.items() if a not in d} != {a: c for a, c in o2.cells.items() if a not in d}:
                        raise Unsupported('odometer paths differ')
                i = 0
                while i < len(x.pc) and i < len(y.pc) and x.pc[i] is y.pc[i]: i += 1
                x.pc = x.pc[:i]
        nxt[s.lv] = add(cur[s.lv], 1)
        for v, (k, n) in zip(nxt, s.dg): E.write(x, k[0], k[1], k[2], v)
        return [(x, b)], []
    def go(s):
        E = s.E; c0 = s.collect0
        E.collect = False
        s.width = {('cell',) + k: 8 * k[2] for k, n in s.dg}
        for rnd in range(12):
            st = s.build(s.kap); st.assume(lt(s.kap, s.n))
            start = st.fork(); npc = len(st.pc)
            latch, ex = s.iterate(st)
            if not s.classify(start, latch, npc): break
            if DBG: print('     nest', s.lv, 'cells', {k: v[1] for k, v in s.cells.items()}, 'W', s.W)
        else: raise Unsupported('no inductive closed form for an odometer loop')
        if any(m == 'fold' for m in s.mode.values()) or any(v[1] is None or v[1].kind == 'acc' for v in s.cells.values()): raise Unsupported('accumulator in an odometer loop')
        if c0:
            E.collect = True
            st = s.build(s.kap); st.assume(lt(s.kap, s.n))
            start = st.fork(); npc = len(st.pc)
            latch, ex = s.iterate(st)
            E.collect = False
            if s.classify(start, latch, npc): raise Unsupported('closed form of an odometer loop is not inductive')
            E.loopinfo.append((s.fn.get('dem', ''), 'digit %d: %s' % (s.lv, s.describe()), show(s.n)))
        E.collect = c0
        return s.build(s.n, gen=False)

def nest(E, S0, src, h, collect, digits):
    st0 = S0.fork()
    for k, n in digits:
        if not E.yes(st0, ge0(sub(n, 1))): raise Unsupported('odometer with an empty range')
    top = Nest(E, S0, src, h, collect, digits, len(digits) - 1)
    for k, n in digits:
        if top.val(st0, k) != 0: raise Unsupported('odometer does not start at 0')
    st = top.go()
    E.collect = collect
    for k, n in digits: E.write(st, k[0], k[1], k[2], n)
    latch, exits = LoopSum.iterate(top, st)
    if any(E.feasible(x) for x, b in latch): raise Unsupported('odometer loop does not end')
    return [e for e in exits if E.feasible(e[0])]

def fvv(v): return fv(v.off) if isinstance(v, Ptr) else fv(v)
def conjuncts(c):
    if isinstance(c, bool): return []
    if c.k == 'and':
        r = []
        for x in c.a: r += conjuncts(x)
        return r
    return [c]
