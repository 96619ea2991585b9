"""Instruction semantics, calls, exceptions, loops."""
from execu import *

FUNNEL = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset')
WORKMAX = 4000

class Exec(Engine):
    # ------------------------------------------------------------ driver
    def run_root(self, name):
        self.root = name
        st = State()
        self.push(st, name, [], None)
        done = self.run(st, None)
        ends = []
        for s, tag in done:
            ends.append(tag)
            if tag == 'uncaught':
                self.record_exc(s)
        return ends
    def record_exc(self, s):
        o = Obl('no exception escapes', self.root, 'exception')
        r, m = solver.prove(s.pc, False, self.pr_to)
        o.res = {'proved': 0, 'sat': 0, 'unknown': 0}; o.res[r] = 1
        o.goal = (False, s.pc); o.model = m; o.fn = 'exception %s' % (s.exc[1] if s.exc else '')
        self.obls.append(o)

    def push(self, st, name, args, ret, byval=None):
        fn = self.p.fns[name]
        f = Frame(); f.fn = fn; f.regs = {i: a for i, a in enumerate(args)}
        f.blk = 0; f.prev = None; f.ip = 0; f.ret = ret; f.allocas = []; f.loops = {}; f.byvals = None
        if byval:
            for i, sz in enumerate(byval):
                if sz and i < len(args):
                    o = st.newobj(sz, 'stack', 'byval'); f.allocas.append(o.id)
                    self.memcpy(st, Ptr(o.id, 0), args[i], sz)
                    f.regs[i] = Ptr(o.id, 0)
        st.frames.append(f)
        if len(st.frames) > 150: raise Unsupported('call depth')
        self.fnused[fn['name']] = self.fnused.get(fn['name'], 0) + 1
    def pop(self, st):
        f = st.frames.pop()
        for a in f.allocas:
            if a in st.mem: del st.mem[a]
        return f

    def run(self, st, until):
        """runs st and its forks; returns [(state, tag)].  until(st, frame, target) -> tag or None is
        consulted before each block transfer."""
        out = []; work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > WORKMAX: raise Unsupported('too many paths')
            try:
                self.advance(s, work, out, until)
            except Stop:
                out.append((s, 'stop'))
        return out

    def advance(self, st, work, out, until):
        """execute st until it ends, forks (pushes to work) or is stopped by `until`"""
        base = None
        while True:
            if not st.frames:
                out.append((st, 'done')); return
            f = st.frames[-1]
            blk = f.fn['blocks'][f.blk]
            if f.ip >= len(blk): raise Unsupported('fell off block')
            ins = blk[f.ip]
            self.steps += 1
            if self.steps & 1023 == 0:
                if self.steps > self.max_steps: raise Unsupported('step limit')
                if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
            o = ins['o']
            h = OPS.get(o)
            if h is not None:
                try: v = h(self, st, f, ins)
                except ForkOn as fk:
                    self.splitcase(st, fk.c, work)
                    f = st.frames[-1]
                    continue
                st.frames[-1].regs[ins['d']] = v
                st.frames[-1].ip += 1
                continue
            if o == 'br':
                bb = ins['bb']
                if len(bb) == 1:
                    if self.goto(st, bb[0], work, out, until): return
                    continue
                c = self.val(st, ins['a'][0])
                if c is UNDEF: self.fail(st, 'branch on undefined value'); raise Stop()
                if bb[0] == bb[1]: c = True
                d = c if isinstance(c, bool) else self.decide(st, c)
                if d is None:
                    r = self.loop_rollback(st, f, bb, work, out, until) or self.loop_cases(st, f, work, out, until)
                    if r: return
                    s2 = st.fork()
                    st.assume(c); s2.assume(bnot(c))
                    if not self.goto(s2, bb[1], work, out, until): work.append(s2)
                    if self.goto(st, bb[0], work, out, until): return
                    continue
                if not isinstance(c, bool): st.assume(c if d else bnot(c))
                if self.goto(st, bb[0] if d else bb[1], work, out, until): return
                continue
            if o == 'switch':
                c = self.val(st, ins['a'][0])
                if c is UNDEF: self.fail(st, 'switch on undefined value'); raise Stop()
                w = ins['cases'][0][0][1] if ins['cases'] else 32
                cu = self.unorm(st, c, w)
                conds = []; tgt = []
                none = []
                for cv, b in ins['cases']:
                    e = eq(cu, cv[2] % (1 << w)) if not isinstance(cv[2], bool) else eq(cu, int(cv[2]))
                    conds.append(e); tgt.append(b); none.append(bnot(e))
                conds.append(band(*none)); tgt.append(ins['def'])
                live = []
                for e, b in zip(conds, tgt):
                    d = self.decide(st, e)
                    if d is True: live = [(True, b)]; break
                    if d is None: live.append((e, b))
                if not live: raise Stop()
                if len(live) > 1 and self.loop_rollback(st, f, tgt, work, out, until): return
                for e, b in live[:-1]:
                    s2 = st.fork(); s2.assume(e)
                    if not self.goto(s2, b, work, out, until): work.append(s2)
                e, b = live[-1]; st.assume(e)
                if self.goto(st, b, work, out, until): return
                continue
            if o == 'ret':
                v = self.val(st, ins['a'][0]) if ins['a'] else None
                fr = self.pop(st)
                if not st.frames:
                    out.append((st, 'done')); return
                if fr.ret is not None:
                    kind = fr.ret[0]
                    caller = st.frames[-1]
                    if v is not None: caller.regs[fr.ret[1]] = v
                    if kind == 'call': caller.ip += 1
                    elif kind == 'invoke':
                        if self.goto(st, fr.ret[2], work, out, until): return
                continue
            if o in ('call', 'invoke'):
                try: r = self.call(st, f, ins, work, out, until)
                except ForkOn as fk:
                    self.splitcase(st, fk.c, work); continue
                if r == 'yield': return
                continue
            if o == 'resume':
                if self.unwind(st, work, out, until): return
                continue
            if o == 'unreachable':
                raise Stop()
            raise Unsupported('instruction ' + o)

    def splitcase(self, st, c, work):
        if isinstance(c, bool): raise Unsupported('case split on a constant')
        d = self.decide(st, c)
        if d is None:
            s2 = st.fork(); s2.assume(bnot(c)); work.append(s2)
            st.assume(c)
            self.splits = getattr(self, 'splits', 0) + 1
            if self.splits > 3000: raise Unsupported('too many case splits')
        else:
            if c in st.pcset or bnot(c) in st.pcset: raise Unsupported('case split does not progress')
            st.assume(c if d else bnot(c))
    # ------------------------------------------------------------ control transfer, loops
    def goto(self, st, tgt, work, out, until):
        """transfer the top frame to block tgt. True if st was consumed."""
        f = st.frames[-1]
        if until is not None:
            tag = until(st, f, tgt)
            if tag is not None:
                out.append((st, (tag, tgt, f.blk))); return True
        src = f.blk
        fn = f.fn
        # leaving / entering loops
        for h in list(f.loops):
            if tgt not in fn['hdr'][h]['set']: del f.loops[h]
        L = fn['hdr'].get(tgt)
        if L is not None:
            if src not in L['set'] or tgt not in f.loops:
                if src in L['set'] and tgt not in f.loops:
                    # continuing a loop whose snapshot was dropped (should not happen)
                    f.loops[tgt] = [None, 0]
                else:
                    snap = st.fork()
                    f = st.frames[-1]
                    f.loops[tgt] = [(snap, src), 0]
            else:
                inf = f.loops[tgt]
                f.loops[tgt] = [inf[0], inf[1] + 1]
                if inf[1] + 1 > self.opts.get('unroll', 40) and inf[0] is not None:
                    self.restart(st, f, tgt, work, out, until, 'unroll limit')
                    return True
        f = st.frames[-1]
        self.phis(st, f, src, tgt)
        return False
    def phis(self, st, f, src, tgt):
        blk = f.fn['blocks'][tgt]
        vals = []; n = 0
        for ins in blk:
            if ins['o'] != 'phi': break
            n += 1
            for v, b in ins['in']:
                if b == src: vals.append((ins['d'], self.val(st, v))); break
            else: raise Unsupported('phi edge')
        for d, v in vals: f.regs[d] = v
        f.prev = src; f.blk = tgt; f.ip = n

    def loop_rollback(self, st, f, succs, work, out, until):
        """undecidable branch that may leave an active loop: restart that loop in summary mode"""
        if not f.loops: return False
        cand = []
        for h, inf in f.loops.items():
            if inf[0] is None: continue
            L = f.fn['hdr'][h]
            if any(b not in L['set'] for b in succs) and any(b in L['set'] for b in succs):
                cand.append((L['depth'], h))
        if not cand: return False
        h = max(cand)[1]
        self.restart(st, f, h, work, out, until, 'exit')
        return True
    def loop_cases(self, st, f, work, out, until):
        """undecidable branch inside a loop that already ran a few iterations: summarise it instead of multiplying cases"""
        act = [(f.fn['hdr'][h]['depth'], h) for h, inf in f.loops.items() if inf[0] is not None and inf[1] >= self.opts.get('cases', 4)]
        if not act: return False
        self.restart(st, f, max(act)[1], work, out, until, 'cases')
        return True
    def restart(self, st, f, h, work, out, until, why):
        ent = f.loops[h][0]
        # pending states inside that loop since it was entered are covered by the restart
        d = len(st.frames) - 1
        work[:] = [w for w in work if not (len(w.frames) > d and w.frames[d].loops.get(h, (None,))[0] is ent)]
        self.enter_summary(ent[0], ent[1], h, work, out, until, why)
    def enter_summary(self, snap, src, h, work, out, until, why):
        import loops
        for s2, tgt, fromblk in loops.summarise(self, snap, src, h):
            # s2: top frame is the loop frame, about to go fromblk -> tgt
            if tgt is None:
                if not self.unwound(s2, work, out, until): work.append(s2)
                continue
            if not self.goto(s2, tgt, work, out, until): work.append(s2)
    def unwound(self, s2, work, out, until):
        if not s2.frames: out.append((s2, 'uncaught')); return True
        return False

    # ------------------------------------------------------------ exceptions
    def unwind(self, st, work, out, until, first=None):
        """unwind from the top frame (which raised). True if consumed."""
        # st.exc = (ptr, typeinfo name)
        while True:
            # top frame is finished: pop it; look at how it was called
            fr = self.pop(st)
            if not st.frames:
                out.append((st, 'uncaught')); return True
            if fr.ret is not None and fr.ret[0] == 'invoke':
                r = self.landing(st, fr.ret[3], work, out, until)
                if r is None: continue      # no handler here: keep unwinding
                return r
            if until is not None:
                tag = until(st, None, None)
                if tag is not None:
                    out.append((st, (tag, None, None))); return True
    def landing(self, st, blk, work, out, until):
        f = st.frames[-1]
        L = f.fn['blocks'][blk]
        lp = next(i for i in L if i['o'] == 'landingpad')
        sel_ = None
        for cl in lp['a']:
            c = self.val(st, cl)
            if isinstance(c, tuple): continue
            if c.obj is None: sel_ = self.typeid(None); break
            nm = self.gname(st, c)
            if self.catches(nm, st.exc[1]): sel_ = self.typeid(nm); break
        if sel_ is None:
            if not lp.get('cleanup', 1): return None
            sel_ = 0
        if self.goto(st, blk, work, out, until): return True
        f = st.frames[-1]
        f.regs[lp['d']] = (st.exc[0], sel_)
        return False
    def typeid(self, nm):
        return self.typeids.setdefault(nm, len(self.typeids) + 1)
    def gname(self, st, p):
        return st.mem[p.obj].name
    def catches(self, want, have):
        if want == have: return True
        BASES = {'_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
                 '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
                 '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
                 '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
                 '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error'}
        n = 0
        while have is not None and n < 20:
            if have == want: return True
            g = self.p.globs.get(have)
            nx = None
            if g and 'init' in g and g['init'][0] == 'agg':
                el = g['init'][2]
                if len(el) >= 3 and el[2][0] == 'g': nx = el[2][1]
            have = nx or BASES.get(have); n += 1
        return False
    def throw(self, st, ptr, tname, ins, work, out, until):
        """throw from call instruction ins in the current top frame"""
        st.exc = (ptr, tname)
        if ins['o'] == 'invoke':
            r = self.landing(st, ins['bb'][1], work, out, until)
            if r is not None: return r
        return self.unwind(st, work, out, until)

    # ------------------------------------------------------------ calls
    def call(self, st, f, ins, work, out, until):
        fo = ins['f']
        args = [self.val(st, a) if a[0] not in ('md', 'asm') else None for a in ins['a']]
        if fo[0] == 'g': name = fo[1]
        elif fo[0] == 'asm': raise Unsupported('inline asm')
        else:
            p = self.val(st, fo)
            if isinstance(p, Ptr) and isinstance(p.obj, str) and p.obj.startswith('fn:'): name = p.obj[3:]
            else:
                self.fail(st, 'call through invalid function pointer', 'memory'); raise Stop()
        name = self.opts.get('replace', {}).get(name, name)
        ret = ('call', ins['d']) if ins['o'] == 'call' else ('invoke', ins['d'], ins['bb'][0], ins['bb'][1])
        m = MODELS.get(name)
        if m is None:
            for pre, fnm in PREFIX:
                if name.startswith(pre): m = fnm; break
        if m is not None:
            r = m(self, st, f, ins, args)
            if r is CONSUMED: return 'yield'
            if isinstance(r, Throw):
                if self.throw(st, r.p, r.t, ins, work, out, until): return 'yield'
                return None
            if isinstance(r, Enter):
                self.push(st, r.name, r.args, ret)
                return None
            f = st.frames[-1]
            f.regs[ins['d']] = r
            if ins['o'] == 'call': f.ip += 1
            else:
                if self.goto(st, ins['bb'][0], work, out, until): return 'yield'
            return None
        fn = self.p.fns.get(name)
        if fn is None or 'decl' in fn: raise Unsupported('external function ' + name)
        self.push(st, name, args, ret, ins.get('byval') if any(ins.get('byval', ())) else None)
        return None

class CONSUMED: pass
class Throw:
    def __init__(s, p, t): s.p = p; s.t = t
class Enter:
    def __init__(s, n, a): s.name = n; s.args = a

# ---------------------------------------------------------------- plain instructions
OPS = {}
def opn(*names):
    def d(f):
        for n in names: OPS[n] = f
        return f
    return d

def width(E, ins): 
    t = E.p.types[ins['t']]
    return t.get('w')
def vecmap(E, st, f, ins, fn):
    """apply fn elementwise for vector types"""
    vs = [E.val(st, a) for a in ins['a']]
    ty = E.p.types[ins['t']]
    if ty['k'] == 'vec':
        et = E.p.types[ty['e']]
        return tuple(fn(et, *[v[i] for v in vs]) for i in range(ty['n']))
    return fn(ty, *vs)

@opn('add', 'sub', 'mul')
def _arith(E, st, f, ins):
    o = ins['o']
    def g(ty, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        w = ty['w']
        if w == 1:
            return bxor(a, b) if o != 'mul' else band(a, b)
        if isinstance(a, Ptr): a = E.ptrtoint(st, a)
        r = add(a, b) if o == 'add' else sub(a, b) if o == 'sub' else mul(a, b)
        if isinstance(r, int):
            M = 1 << w
            r %= M
            return r - M if r >= M >> 1 else r
        if ins.get('nsw') and E.opts.get('overflow', True):
            lo, hi = iv(r)
            H = 1 << (w - 1)
            # signed overflow is undefined: an obligation (the operands as signed values)
            if not (lo >= -H and hi < H):
                sa, sb = E.snorm(st, a, w), E.snorm(st, b, w)
                r2 = add(sa, sb) if o == 'add' else sub(sa, sb) if o == 'sub' else mul(sa, sb)
                E.check(st, band(ge0(add(r2, H)), lt(r2, H)), 'no signed overflow', 'arith')
                return r2
            return r
        return E.strip(r, 1 << w)
    return vecmap(E, st, f, ins, g)

def _nz(E, st, b, w):
    E.check(st, bnot(eq0(b)), 'divisor is not zero', 'arith')
    if any(x is False for x in st.pc): raise Stop()
@opn('udiv', 'urem')
def _udiv(E, st, f, ins):
    a, b = [E.val(st, x) for x in ins['a']]
    if a is UNDEF or b is UNDEF: return UNDEF
    w = width(E, ins)
    a = E.unorm(st, a, w); b = E.unorm(st, b, w)
    _nz(E, st, b, w)
    return div(a, b) if ins['o'] == 'udiv' else mod(a, b)
@opn('sdiv', 'srem')
def _sdiv(E, st, f, ins):
    a, b = [E.val(st, x) for x in ins['a']]
    if a is UNDEF or b is UNDEF: return UNDEF
    w = width(E, ins)
    a = E.snorm(st, a, w); b = E.snorm(st, b, w)
    _nz(E, st, b, w)
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return q if ins['o'] == 'sdiv' else a - q * b
    bp = E.decide(st, ge0(b)); ap = E.decide(st, ge0(a))
    absb = b if bp is True else neg(b) if bp is False else ite(ge0(b), b, neg(b))
    absa = a if ap is True else neg(a) if ap is False else ite(ge0(a), a, neg(a))
    q = div(absa, absb)
    if ap is True and bp is True: sq = q
    elif ap is False and bp is False: sq = q
    elif ap is not None and bp is not None: sq = neg(q)
    elif bp is True: sq = ite(ge0(a), q, neg(q))
    else: sq = ite(bor(band(ge0(a), ge0(b)), band(bnot(ge0(a)), bnot(ge0(b)))), q, neg(q))
    return sq if ins['o'] == 'sdiv' else sub(a, mul(sq, b))
@opn('shl', 'lshr', 'ashr')
def _shift(E, st, f, ins):
    def g(ty, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        w = ty['w']
        if not isinstance(b, int):
            if isinstance(a, int) and ins['o'] == 'shl' and a == 1 or True:
                bu = E.unorm(st, b, w)
                E.check(st, lt(bu, w), 'shift amount in range', 'arith')
                # case split over the amount through nested ite
                r = 0
                for k in range(w - 1, -1, -1):
                    v = scale(a, 1 << k) if ins['o'] == 'shl' else div(E.unorm(st, a, w), 1 << k) if ins['o'] == 'lshr' else div(E.snorm(st, a, w), 1 << k)
                    r = ite(eq(bu, k), v, r)
                return r
        if b < 0 or b >= w: E.fail(st, 'shift amount in range', 'arith'); raise Stop()
        if ins['o'] == 'shl': return E.strip(scale(a, 1 << b), 1 << w) if not isinstance(a, int) else scale(a, 1 << b)
        if ins['o'] == 'lshr': return div(E.unorm(st, a, w), 1 << b)
        return div(E.snorm(st, a, w), 1 << b)
    return vecmap(E, st, f, ins, g)
@opn('and', 'or', 'xor')
def _bit(E, st, f, ins):
    o = ins['o']
    def g(ty, a, b):
        w = ty['w']
        if w == 1:
            if a is UNDEF or b is UNDEF:
                x = b if a is UNDEF else a
                if o == 'and' and x is False: return False
                if o == 'or' and x is True: return True
                return UNDEF
            return band(a, b) if o == 'and' else bor(a, b) if o == 'or' else bxor(a, b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            return a & b if o == 'and' else a | b if o == 'or' else a ^ b
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            M = 1 << w; b %= M
            if o == 'and':
                if b == 0: return 0
                if b == M - 1: return a
                lowz = (b & -b).bit_length() - 1
                m = b >> lowz
                if m & (m + 1) == 0:      # contiguous mask
                    hi = lowz + m.bit_length()
                    if hi == w: return sub(a, mod(E.strip(a, 1 << w) if False else a, 1 << lowz)) if lowz else a
                    x = mod(a, 1 << hi)
                    return sub(x, mod(a, 1 << lowz)) if lowz else x
            if o == 'or' and b == 0: return a
            if o == 'xor':
                if b == 0: return a
                if b == M - 1: return sub(-1, a)
            if o == 'or':
                au = E.unorm(st, a, w)
                low = (b & -b)
                if iv(au)[1] < low: return add(au, b)
        if o == 'and' and a is b or o == 'or' and a is b: return a
        if o == 'xor' and a is b: return 0
        la, ha = iv(a); lb, hb = iv(b)
        if la >= 0 and ha <= 1 and lb >= 0 and hb <= 1:
            x, y = bnot(eq0(a)), bnot(eq0(b))
            return ite(band(x, y) if o == 'and' else bor(x, y) if o == 'or' else bxor(x, y), 1, 0)
        au, bu = E.unorm(st, a, w), E.unorm(st, b, w)
        if not isinstance(bu, int) and au.id > bu.id: au, bu = bu, au
        # disjoint bits:  x*2^k | y , y<2^k
        if o in ('or', 'xor'):
            for x, y in ((au, bu), (bu, au)):
                if isinstance(y, (int, Poly)) and isinstance(x, Poly):
                    h = iv(y)[1]
                    if h != INF:
                        kk = int(h).bit_length()
                        if kk and all(c % (1 << kk) == 0 for m, c in x.t): return add(x, y)
        hi = min(iv(au)[1], iv(bu)[1]) if o == 'and' else (1 << max(int(min(iv(au)[1], (1 << w) - 1)).bit_length(), int(min(iv(bu)[1], (1 << w) - 1)).bit_length())) - 1
        return uf('bit' + o, (au, bu), 'i', 0, hi)
    return vecmap(E, st, f, ins, g)
@opn('icmp')
def _icmp(E, st, f, ins):
    a, b = [E.val(st, x) for x in ins['a']]
    p = ins['p']
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if a is UNDEF or b is UNDEF: E.fail(st, 'use of undefined pointer'); raise Stop()
        if a.obj == b.obj:
            if a.obj is None or True:
                return E.icmp(st, p if p in ('eq', 'ne') else ('s' + p[1:] if a.obj is not None else p), a.off, b.off, 64)
        if p in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if x.obj is None and isinstance(x.off, int) and x.off == 0:
                    return p == 'ne'     # an object address is never null (offsets are in bounds)
            if a.obj is not None and b.obj is not None: return p == 'ne'
        return E.icmp(st, p, E.ptrtoint(st, a), E.ptrtoint(st, b), 64)
    t = E.p.types[ins['st']]
    if t['k'] == 'vec':
        return tuple(E.icmp(st, p, x, y, E.p.types[t['e']]['w']) for x, y in zip(a, b))
    return E.icmp(st, p, a, b, t['w'])
@opn('select')
def _select(E, st, f, ins):
    c, x, y = [E.val(st, a) for a in ins['a']]
    if c is UNDEF: E.fail(st, 'select on undefined value'); raise Stop()
    if isinstance(c, tuple): return tuple(E.vite(a, b, d) for a, b, d in zip(c, x, y))
    if not isinstance(c, bool):
        d = E.decide(st, c)
        if d is not None: c = d
    return E.vite(c, x, y)
@opn('zext')
def _zext(E, st, f, ins):
    a = E.val(st, ins['a'][0])
    if a is UNDEF: return UNDEF
    w = E.p.types[ins['st']].get('w')
    if w == 1: return ite(a, 1, 0)
    return E.unorm(st, a, w)
@opn('sext')
def _sext(E, st, f, ins):
    a = E.val(st, ins['a'][0])
    if a is UNDEF: return UNDEF
    w = E.p.types[ins['st']].get('w')
    if w == 1: return ite(a, -1, 0)
    return E.snorm(st, a, w)
@opn('trunc')
def _trunc(E, st, f, ins):
    a = E.val(st, ins['a'][0])
    if a is UNDEF: return UNDEF
    w = width(E, ins)
    if isinstance(a, int):
        M = 1 << w
        if w == 1: return bool(a & 1)
        r = a % M
        return r - M if r >= M >> 1 else r
    if w == 1:
        lo, hi = iv(a)
        if lo >= 0 and hi <= 1: return bnot(eq0(a))
        return bnot(eq0(mod(a, 2)))
    return E.strip(a, 1 << w)
@opn('bitcast', 'addrspacecast', 'freeze')
def _bitcast(E, st, f, ins):
    v = E.val(st, ins['a'][0])
    if ins['o'] == 'freeze': return v
    src = E.p.types[ins['st']]; dst = E.p.types[ins['t']]
    if src['k'] == dst['k'] and src['k'] != 'vec': return v
    def flat(ty, v):
        if ty['k'] == 'vec':
            es = E.p.size(ty['e']); r = 0
            for i, x in enumerate(v):
                if x is UNDEF: return UNDEF
                r = add(r, scale(E.unorm(st, E.toint(st, x, es), 8 * es), 1 << (8 * es * i)))
            return r
        return v if v is UNDEF else E.toint(st, v, ty['size'])
    iv_ = flat(src, v)
    if iv_ is UNDEF: return E.undef(ins['t'])
    if dst['k'] == 'vec':
        et = E.p.types[dst['e']]; es = et['size']
        iv_ = E.unorm(st, iv_, 8 * src['size'])
        return tuple(E.fromint(st, mod(div(iv_, 1 << (8 * es * i)), 1 << (8 * es)) if i < dst['n'] - 1 else div(iv_, 1 << (8 * es * i)), es, et['k'], et.get('w')) for i in range(dst['n']))
    return E.fromint(st, iv_, dst['size'], dst['k'], dst.get('w'))
@opn('ptrtoint')
def _p2i(E, st, f, ins):
    v = E.val(st, ins['a'][0])
    return UNDEF if v is UNDEF else E.ptrtoint(st, v)
@opn('inttoptr')
def _i2p(E, st, f, ins):
    v = E.val(st, ins['a'][0])
    return UNDEF if v is UNDEF else E.inttoptr(st, v)
@opn('getelementptr')
def _gep(E, st, f, ins): return E.gep(st, ins)
@opn('load')
def _load(E, st, f, ins): return E.load(st, E.val(st, ins['a'][0]), ins['t'])
@opn('store')
def _store(E, st, f, ins):
    E.store(st, E.val(st, ins['a'][1]), ins['st'], E.val(st, ins['a'][0]))
@opn('alloca')
def _alloca(E, st, f, ins):
    n = E.val(st, ins['a'][0])
    if not isinstance(n, int): raise Unsupported('variable alloca')
    o = st.newobj(ins['size'] * n, 'stack', 'local')
    f.allocas.append(o.id)
    return Ptr(o.id, 0)
@opn('extractvalue')
def _ev(E, st, f, ins):
    v = E.val(st, ins['a'][0])
    for i in ins['idx']: v = v[i]
    return v
@opn('insertvalue')
def _ivv(E, st, f, ins):
    v = E.val(st, ins['a'][0]); x = E.val(st, ins['a'][1])
    def rec(v, idx):
        if not idx: return x
        l = list(v); l[idx[0]] = rec(l[idx[0]], idx[1:]); return tuple(l)
    return rec(v, ins['idx'])
@opn('extractelement')
def _ee(E, st, f, ins):
    v = E.val(st, ins['a'][0]); i = E.val(st, ins['a'][1])
    return v[i]
@opn('insertelement')
def _ie(E, st, f, ins):
    v = list(E.val(st, ins['a'][0])); v[E.val(st, ins['a'][2])] = E.val(st, ins['a'][1]); return tuple(v)
@opn('shufflevector')
def _sv(E, st, f, ins):
    a = E.val(st, ins['a'][0]); b = E.val(st, ins['a'][1])
    ab = tuple(a) + tuple(b)
    return tuple(ab[i] if i >= 0 else UNDEF for i in ins['mask'])
@opn('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg')
def _fp(E, st, f, ins):
    def g(ty, *a):
        if any(x is UNDEF for x in a): return UNDEF
        return fop(ins['o'], a, 'f%d' % ty['w'])
    return vecmap(E, st, f, ins, g)
@opn('fcmp')
def _fcmp(E, st, f, ins):
    a, b = [E.val(st, x) for x in ins['a']]
    if a is UNDEF or b is UNDEF: E.fail(st, 'use of undefined value'); raise Stop()
    if ins['p'] in ('true', 'false'): return ins['p'] == 'true'
    return fcmp(ins['p'], a, b)
@opn('sitofp', 'uitofp')
def _i2f(E, st, f, ins):
    a = E.val(st, ins['a'][0])
    if a is UNDEF: return UNDEF
    w = E.p.types[ins['st']].get('w')
    if w == 1: a = ite(a, 1, 0)
    elif ins['o'] == 'sitofp': a = E.snorm(st, a, w)
    else: a = E.unorm(st, a, w)
    if isinstance(a, Poly) and len(a.t) == 1 and a.t[0][1] == 1 and len(a.t[0][0]) == 1 and a.t[0][0][0].k == 'ite':
        c, x, y = a.t[0][0][0].a
        if isinstance(x, int) and isinstance(y, int):
            return fite(c, i2f(x, width(E, ins), True), i2f(y, width(E, ins), True))
    return i2f(a, width(E, ins), True)
@opn('fptosi', 'fptoui')
def _f2i(E, st, f, ins):
    a = E.val(st, ins['a'][0])
    if a is UNDEF: return UNDEF
    w = width(E, ins)
    if a.k == 'fc':
        v = fval(a)
        if v == v and abs(v) < 2**62: return int(v)
    if ins['o'] == 'fptosi': return uf('f2si%d' % w, (a,), 'i', -(1 << (w - 1)), (1 << (w - 1)) - 1)
    return uf('f2ui%d' % w, (a,), 'i', 0, (1 << w) - 1)
@opn('fpext', 'fptrunc')
def _fpx(E, st, f, ins):
    a = E.val(st, ins['a'][0])
    if a is UNDEF: return UNDEF
    w = width(E, ins)
    if a.k == 'fc' and w in (32, 64) and a.s in ('f32', 'f64'):
        c = fromval(fval(a), w)
        if c is not None: return c
    if ins['o'] == 'fptrunc' and a.k == 'fop' and a.a[0] == 'fpext' and a.a[1].s == 'f%d' % w: return a.a[1]
    return mk('fop', (ins['o'], a), 'f%d' % w)
@opn('landingpad')
def _lp(E, st, f, ins): return f.regs[ins['d']]
@opn('fence')
def _fence(E, st, f, ins): return None
@opn('atomicrmw')
def _rmw(E, st, f, ins):
    p = E.val(st, ins['a'][0]); v = E.val(st, ins['a'][1])
    old = E.load(st, p, ins['t'])
    o = ins['rmw']
    if o == 'add': n = add(old, v)
    elif o == 'sub': n = sub(old, v)
    elif o == 'xchg': n = v
    else: raise Unsupported('atomicrmw ' + o)
    E.store(st, p, ins['t'], n)
    return old
@opn('cmpxchg')
def _cx(E, st, f, ins):
    p, c, n = [E.val(st, a) for a in ins['a']]
    ety = E.p.types[ins['t']]['e'][0]
    old = E.load(st, p, ety)
    w = E.p.types[ety].get('w', 64)
    if isinstance(old, Ptr): raise Unsupported('cmpxchg ptr')
    e = E.icmp(st, 'eq', old, c, w)
    E.store(st, p, ety, E.vite(e, n, old))
    return (old, e)

# ---------------------------------------------------------------- models of external functions
MODELS = {}
PREFIX = []
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def prefix(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d

def cstr(E, st, p):
    g = None
    o = st.mem[p.obj]
    i = p.off; s = ''
    while True:
        v = E.read(st, o, i, 1, 'i', 8)
        if not isinstance(v, int): raise Unsupported('symbolic string')
        if v % 256 == 0: return s
        s += chr(v % 256); i += 1

def newinput(E, nm):
    n = E.idcount.get(nm, 0); E.idcount[nm] = n + 1
    return nm if n == 0 else '%s.%d' % (nm, n)
@model('vp_int_', 'vp_len_')
def _(E, st, f, ins, a):
    nm = cstr(E, st, a[0])
    lo, hi = a[1], a[2]
    if not isinstance(lo, int) or not isinstance(hi, int):
        l0 = iv(E.snorm(st, lo, 64))[0]; h0 = iv(E.snorm(st, hi, 64))[1]
        x = inp(E, st, nm, max(l0, -(1 << 63)), min(h0, (1 << 63) - 1))
        st.assume(le(E.snorm(st, lo, 64), x)); st.assume(le(x, E.snorm(st, hi, 64)))
        return x
    return inp(E, st, nm, lo, hi)
def inp(E, st, nm, lo, hi):
    if lo == hi: return lo
    key = ('n', nm, len(st.frames), E.where(st))
    # one symbol per dynamic occurrence on a path
    i = 0
    used = st.qf
    name = nm
    while name in used: i += 1; name = '%s.%d' % (nm, i)
    st.qf = st.qf + (name,)
    return sym(name, lo, hi)
def finp(E, st, nm, so):
    i = 0; name = nm
    while name in st.qf: i += 1; name = '%s.%d' % (nm, i)
    st.qf = st.qf + (name,)
    return name
@model('vp_f32_')
def _(E, st, f, ins, a): return sym(finp(E, st, cstr(E, st, a[0]), 'f32'), sort='f32')
@model('vp_f64_')
def _(E, st, f, ins, a): return sym(finp(E, st, cstr(E, st, a[0]), 'f64'), sort='f64')
KINDS = {0: ('f32', 4, None), 1: ('f64', 8, None), 2: ('i', 1, (-128, 127)), 3: ('i', 1, (0, 255)), 4: ('i', 2, (-32768, 32767)),
         5: ('i', 2, (0, 65535)), 6: ('i', 4, (-2**31, 2**31 - 1)), 7: ('i', 4, (0, 2**32 - 1)), 8: ('i', 8, (-2**63, 2**63 - 1)),
         9: ('i', 8, (0, 2**64 - 1)), 10: ('i', 1, (0, 1))}
@model('vp_array_')
def _(E, st, f, ins, a):
    nm = finp(E, st, cstr(E, st, a[0]), 'arr')
    n = E.unorm(st, a[1], 64); kd = a[2]
    so, es, rg = KINDS[kd & 63]
    lo, hi = rg if rg else (None, None)
    extra = ()
    if kd & 64:
        l, h = E.snorm(st, a[3], 64), E.snorm(st, a[4], 64)
        if isinstance(l, int): lo = max(lo, l)
        if isinstance(h, int): hi = min(hi, h)
        if not (isinstance(l, int) and isinstance(h, int)): extra = (l, h)
    ar = arr(nm, so, lo, hi)
    if extra: E.arrbounds[ar] = extra
    o = st.newobj(scale(n, es), 'heap', nm, base=('arr', ar, es) + extra, align=512)
    if isinstance(o.size, Poly): st.assume(lt(o.size, 1 << 47))
    return Ptr(o.id, 0)
@model('vp_fill_')
def _(E, st, f, ins, a):
    p = a[0]
    if not isinstance(p, Ptr) or p.obj is None or isinstance(p.obj, str) or not (isinstance(p.off, int) and p.off == 0): raise Unsupported('fill of a part of an object')
    nm = finp(E, st, cstr(E, st, a[1]), 'arr')
    n = E.unorm(st, a[2], 64)
    so, es, rg = KINDS[a[3]]
    o = st.wobj(p.obj)
    E.check(st, le(scale(n, es), o.size), 'filled part inside the object', 'memory')
    ar = arr(nm, so, *(rg or (None, None)))
    o.cells = {}; o.layers = (); o.base = ('arr', ar, es)
@model('vp_assume_')
def _(E, st, f, ins, a):
    if a[0] is False: raise Stop()
    if a[0] is UNDEF: raise Unsupported('assume undefined')
    d = E.decide(st, a[0])
    if d is False: raise Stop()
    st.assume(a[0])
@model('vp_assert_')
def _(E, st, f, ins, a):
    if a[0] is UNDEF: a[0] = False
    E.check(st, a[0], cstr(E, st, a[1]), 'spec')
    if any(x is False for x in st.pc): raise Stop()
@model('vp_cover_')
def _(E, st, f, ins, a):
    l = cstr(E, st, a[0])
    if E.collect:
        if E.covers.get(l) != 'sat':
            r, m = solver.prove(st.pc, False, 5.0)
            E.covers[l] = 'unreachable' if r == 'proved' else r
@model('vp_note_')
def _(E, st, f, ins, a): E.notes.add(cstr(E, st, a[0]))
@model('vp_alive_')
def _(E, st, f, ins, a):
    p = a[0]
    return isinstance(p, Ptr) and p.obj is not None and not isinstance(p.obj, str) and p.obj in st.mem and st.mem[p.obj].alive
@model('vp_live_')
def _(E, st, f, ins, a): return st.live
@model('vp_feq32_', 'vp_feq64_')
def _(E, st, f, ins, a):
    if a[0] is UNDEF or a[1] is UNDEF: return False
    return E.feq(znorm(a[0]), znorm(a[1]))
@model('__assert_fail')
def _(E, st, f, ins, a):
    try: msg = cstr(E, st, a[0])
    except Exception: msg = '?'
    # the assertion belongs to the function that contains it
    E.check(st, False, 'assertion `%s` of %s' % (msg, f.fn.get('dem', f.fn['name'])[:120]), 'code-assert')
    raise Stop()
@model('abort', '_ZSt9terminatev', '__clang_call_terminate', 'llvm.trap', '__cxa_pure_virtual', 'exit')
def _(E, st, f, ins, a):
    E.check(st, False, 'no abnormal termination', 'code-assert'); raise Stop()

def alloc(E, st, n, nm, align=16):
    n = E.unorm(st, n, 64) if not isinstance(n, int) else n
    o = st.newobj(n, 'heap', nm, align=align)
    if isinstance(n, Poly): st.assume(lt(n, 1 << 47))
    st.live += 1
    return Ptr(o.id, 0)
def free(E, st, p, what):
    if p is UNDEF: E.fail(st, what + ' of undefined pointer', 'memory'); raise Stop()
    if p.obj is None: return
    o = st.mem.get(p.obj)
    if o is None or not o.alive: E.fail(st, 'no double free', 'memory'); raise Stop()
    if o.kind != 'heap': E.fail(st, 'only heap storage is freed', 'memory'); raise Stop()
    E.check(st, eq0(p.off), 'freed pointer is the start of the block', 'memory')
    o = st.wobj(p.obj); o.alive = False
    st.live -= 1
@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _(E, st, f, ins, a): return alloc(E, st, a[0], 'heap')
@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(E, st, f, ins, a): return alloc(E, st, a[0], 'heap', a[1] if isinstance(a[1], int) else 16)
@model('calloc')
def _(E, st, f, ins, a):
    p = alloc(E, st, mul(a[0], a[1]), 'heap'); st.mem[p.obj].base = ('zero',); return p
@model('memalign', 'aligned_alloc')
def _(E, st, f, ins, a): return alloc(E, st, a[1], 'heap', a[0] if isinstance(a[0], int) else 16)
@model('posix_memalign')
def _(E, st, f, ins, a):
    p = alloc(E, st, a[2], 'heap', a[1] if isinstance(a[1], int) else 16)
    E.obj(st, a[0], 'write'); E.write(st, a[0].obj, a[0].off, 8, p)
    return 0
@model('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(E, st, f, ins, a): free(E, st, a[0], 'free')
@prefix('llvm.memcpy', 'llvm.memmove')
def _(E, st, f, ins, a): E.memcpy(st, a[0], a[1], a[2])
@prefix('llvm.memset')
def _(E, st, f, ins, a): E.memset(st, a[0], a[1], a[2])
@model('memcpy', 'memmove')
def _(E, st, f, ins, a): E.memcpy(st, a[0], a[1], a[2]); return a[0]
@model('memset')
def _(E, st, f, ins, a): E.memset(st, a[0], a[1], a[2]); return a[0]
@prefix('llvm.threadlocal.address')
def _(E, st, f, ins, a): return a[0]
@prefix('llvm.expect', 'llvm.launder', 'llvm.strip')
def _(E, st, f, ins, a): return a[0]
@prefix('llvm.is.constant')
def _(E, st, f, ins, a): return False
@prefix('llvm.objectsize')
def _(E, st, f, ins, a): return -1
@prefix('llvm.prefetch', 'llvm.va_', 'llvm.stackrestore', 'llvm.donothing')
def _(E, st, f, ins, a): return None
@prefix('llvm.stacksave')
def _(E, st, f, ins, a): return NULL
@prefix('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')
def _(E, st, f, ins, a):
    n = ins['f'][1]; w = width(E, ins)
    c = E.icmp(st, ('u' if n[5] == 'u' else 's') + 'lt', a[0], a[1], w)
    return E.vite(c, a[0], a[1]) if n[6:9] == 'min' else E.vite(c, a[1], a[0])
@prefix('llvm.abs.')
def _(E, st, f, ins, a):
    w = width(E, ins)
    x = E.snorm(st, a[0], w)
    return ite(ge0(x), x, neg(x))
@prefix('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow')
def _(E, st, f, ins, a):
    n = ins['f'][1]; w = E.p.types[E.p.types[ins['t']]['e'][0]]['w']
    x, y = E.unorm(st, a[0], w), E.unorm(st, a[1], w)
    r = mul(x, y) if 'umul' in n else add(x, y) if 'uadd' in n else sub(x, y)
    ov = bnot(band(ge0(r), lt(r, 1 << w)))
    return (r, ov)
@prefix('llvm.fmuladd', 'llvm.fma')
def _(E, st, f, ins, a):
    so = a[0].s
    return fop('fadd', (fop('fmul', (a[0], a[1]), so), a[2]), so)
@prefix('llvm.is.fpclass')
def _(E, st, f, ins, a):
    x, m = a[0], a[1]
    dbl = ins['f'][1].endswith('f64')
    if m is UNDEF or x is UNDEF: return UNDEF
    v = getattr(m, 'v', m)
    if not dbl and not ins['f'][1].endswith('f32'): raise Unsupported(ins['f'][1])
    ab = mk('fop', ('fabs', x), x.s)
    inf, mn = (0x7ff0000000000000, 0x0010000000000000) if dbl else (0x7f800000, 0x00800000)
    k = lambda b: fconst(b, 64 if dbl else 32)
    if v == 3: return fcmp('uno', x, x)
    if v == 504: return fcmp('olt', ab, k(inf))
    if v == 264: return band(fcmp('olt', ab, k(inf)), fcmp('oge', ab, k(mn)))
    raise Unsupported('%s mask %s' % (ins['f'][1], v))
@prefix('llvm.fabs', 'llvm.sqrt', 'llvm.floor', 'llvm.ceil', 'llvm.trunc.', 'llvm.rint', 'llvm.sin', 'llvm.cos', 'llvm.exp', 'llvm.log', 'llvm.pow', 'llvm.copysign',
        'llvm.minnum', 'llvm.maxnum', 'llvm.round', 'llvm.nearbyint')
def _(E, st, f, ins, a):
    return mk('fop', (ins['f'][1].split('.')[1],) + tuple(a), a[0].s)
def libm(name, key):
    def g(E, st, f, ins, a):
        if any(x is UNDEF for x in a): return UNDEF
        return mk('fop', (key,) + tuple(a), a[0].s)
    MODELS[name] = g
for nm in 'sqrt sin cos tan exp log log10 pow floor ceil fabs atan atan2 asin acos sinh cosh tanh fmod hypot rint round log2 exp2'.split():
    libm(nm, nm); libm(nm + 'f', nm)
def flib(name):
    def g(E, st, f, ins, a): return mk('fop', (name,) + tuple(a), a[0].s)
    MODELS[name] = g
# complex functions of the C library: uninterpreted real and imaginary parts
def flat(a):
    r = []
    for x in a: r += flat(x) if isinstance(x, tuple) else [x]
    return r
def clib(name, key, real):
    def g(E, st, f, ins, a):
        v = flat(a)
        if any(x is UNDEF for x in v): return UNDEF
        if real: return mk('fop', (key,) + tuple(v), v[0].s)
        return tuple(mk('fop', (key + part,) + tuple(v), v[0].s) for part in ('.re', '.im'))
    MODELS[name] = g
for nm in 'cexp csqrt clog csin ccos ctan csinh ccosh ctanh cpow'.split():
    clib(nm, nm, False); clib(nm + 'f', nm, False)
for nm in ('cabs', 'carg'): clib(nm, nm, True); clib(nm + 'f', nm, True)
@model('__cxa_guard_acquire')
def _(E, st, f, ins, a):
    v = E.read(st, st.mem[a[0].obj], a[0].off, 1, 'i', 8)
    if v == 0: return 1
    return 0
@model('__cxa_guard_release')
def _(E, st, f, ins, a): E.write(st, a[0].obj, a[0].off, 1, 1)
@model('__cxa_guard_abort', '__cxa_end_catch', '__cxa_free_exception', '__cxa_thread_atexit')
def _(E, st, f, ins, a): return 0
@model('__cxa_atexit', 'atexit')
def _(E, st, f, ins, a): return 0
@model('__cxa_begin_catch')
def _(E, st, f, ins, a): return a[0]
@model('__cxa_allocate_exception')
def _(E, st, f, ins, a):
    o = st.newobj(a[0], 'exc', 'exception'); return Ptr(o.id, 0)
@model('__cxa_throw')
def _(E, st, f, ins, a): return Throw(a[0], E.gname(st, a[1]))
@model('__cxa_rethrow')
def _(E, st, f, ins, a): return Throw(*st.exc)
def thrower(sym_, ti):
    def g(E, st, f, ins, a):
        o = st.newobj(16, 'exc', 'exception'); return Throw(Ptr(o.id, 0), ti)
    MODELS[sym_] = g
thrower('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error')
thrower('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range')
thrower('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range')
thrower('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc')
thrower('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length')
thrower('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error')
thrower('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument')
thrower('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast')
thrower('__cxa_bad_cast', '_ZTISt8bad_cast')
@prefix('llvm.eh.typeid.for')
def _(E, st, f, ins, a): return E.typeid(E.gname(st, a[0]))
def _nop(E, st, f, ins, a): return None
# standard exception objects carry only a message: constructors/destructors have no other effect
for nm in ('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorD1Ev', '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorD1Ev', '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorD2Ev',
           '_ZNSt16invalid_argumentC1EPKc', '_ZNSt16invalid_argumentD1Ev', '_ZNSt12length_errorC1EPKc', '_ZNSt12length_errorD1Ev',
           '_ZNSt9exceptionD2Ev', '_ZNSt9bad_allocD1Ev', '_ZNSt12domain_errorC1EPKc', '_ZNSt12domain_errorD1Ev', '_ZNSt9bad_allocD2Ev', '_ZNSt8ios_base4InitC1Ev',
           '_ZNSt14overflow_errorC1EPKc', '_ZNSt14overflow_errorD1Ev', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeD1Ev', '_ZNSt11range_errorC1EPKc', '_ZNSt11range_errorD1Ev'):
    MODELS[nm] = _nop
@model('strlen')
def _(E, st, f, ins, a): return len(cstr(E, st, a[0]))
@model('memcmp', 'bcmp', 'strcmp')
def _(E, st, f, ins, a):
    n = a[2] if len(a) > 2 else None
    if n is None:
        x, y = cstr(E, st, a[0]), cstr(E, st, a[1]); return (x > y) - (x < y)
    raise Unsupported('memcmp')
@model('getenv')
def _(E, st, f, ins, a): return NULL
@model('__dynamic_cast')
def _(E, st, f, ins, a):
    # (src, src_type, dst_type, hint): compare the dynamic type through the vtable's typeinfo slot
    p, stp, dt, hint = a
    if p.obj is None: return NULL
    vt = E.read(st, st.mem[p.obj], p.off, 8, 'p', None)
    ti = E.read(st, st.mem[vt.obj], sub(vt.off, 8), 8, 'p', None)
    top = E.read(st, st.mem[vt.obj], sub(vt.off, 16), 8, 'i', 64)
    if E.catches(E.gname(st, dt), E.gname(st, ti)): return Ptr(p.obj, add(p.off, top))
    return NULL
