"""Hash-consed terms.

Integers are polynomials with integer coefficients over atoms.  A w-bit machine
integer is represented by ANY integer congruent to it modulo 2^w; it is brought
into its unsigned / signed range only where the value (not just the residue)
matters (compare, divide, widen, address).  So machine arithmetic is exact.
Booleans, floats and arrays are separate sorts; floating-point operations are
uninterpreted (commutative where IEEE says so)."""
import itertools, struct

INF = float('inf')
_cnt = itertools.count()
_tab = {}
_ptab = {}

class N:
    __slots__ = ('k', 'a', 's', 'id', 'lo', 'hi', '_fv', '_h', '__weakref__')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __copy__(self): return self
    def __deepcopy__(self, m): return self

class Poly:
    __slots__ = ('t', 'id', '_fv', '_h', '_iv')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __copy__(self): return self
    def __deepcopy__(self, m): return self

def mk(k, a, s, lo=None, hi=None):
    key = (k, a, s, lo, hi) if k in ('sym', 'bv', 'arr') else (k, a, s)
    n = _tab.get(key)
    if n is None:
        n = N(); n.k = k; n.a = a; n.s = s; n.id = next(_cnt); n.lo = lo; n.hi = hi
        n._fv = None; n._h = None
        _tab[key] = n
    return n

_E = frozenset()

def fv(x):
    """free symbols (sym, bv, arr nodes)"""
    if x is None or isinstance(x, (int, str, float, bool)): return _E
    if isinstance(x, (N, Poly)):
        f = x._fv
        if f is not None: return f
        if isinstance(x, Poly):
            r = set()
            for m, c in x.t:
                for a in m: r |= fv(a)
        elif x.k in ('sym', 'bv', 'arr'):
            r = {x}
            if x.k == 'arr':
                for y in x.a: r |= fv(y)
        elif x.k == 'fold':
            d = x.a[0]
            r = set()
            for y in x.a[1:]: r |= fv(y)
            r = {y for y in r if not (y.k == 'bv' and y.a[0] == d)}
        else:
            r = set()
            for y in x.a: r |= fv(y)
        f = x._fv = frozenset(r)
        return f
    if isinstance(x, tuple):
        r = set()
        for y in x: r |= fv(y)
        return frozenset(r)
    if isinstance(x, Ptr): return fv(x.off)
    return _E

def height(x):
    if isinstance(x, (N, Poly)):
        h = x._h
        if h is not None: return h
        if isinstance(x, Poly):
            h = 0
            for m, c in x.t:
                for a in m: h = max(h, height(a))
        elif x.k == 'fold': h = x.a[0]
        elif x.k == 'bv': h = 0
        else:
            h = 0
            for y in x.a: h = max(h, height(y))
        x._h = h
        return h
    if isinstance(x, tuple):
        h = 0
        for y in x: h = max(h, height(y))
        return h
    return 0

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, show(self.off))
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj == o.obj and self.off is o.off or \
        (isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off)
    def __hash__(self): return hash((self.obj, self.off))
NULL = Ptr(None, 0)

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

# ---------------------------------------------------------------- polynomials
def _mkpoly(d):
    """d: dict mono(tuple of N sorted by id) -> coeff"""
    t = [(m, c) for m, c in d.items() if c != 0]
    if not t: return 0
    if len(t) == 1 and t[0][0] == (): return t[0][1]
    t.sort(key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0])))
    t = tuple(t)
    p = _ptab.get(t)
    if p is None:
        p = Poly(); p.t = t; p.id = next(_cnt); p._fv = None; p._h = None; p._iv = None
        _ptab[t] = p
    return p

def atom(n):
    return _mkpoly({(n,): 1})

def _d(x):
    if isinstance(x, int): return {(): x} if x else {}
    return dict(x.t)

def add(x, y):
    if isinstance(x, int):
        if isinstance(y, int): return x + y
        if x == 0: return y
    elif isinstance(y, int) and y == 0: return x
    d = _d(x)
    for m, c in (((), y),) if isinstance(y, int) else y.t:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)

def neg(x):
    if isinstance(x, int): return -x
    return _mkpoly({m: -c for m, c in x.t})
def sub(x, y):
    if isinstance(x, int) and isinstance(y, int): return x - y
    if x is y: return 0
    return add(x, neg(y))
def scale(x, k):
    if isinstance(x, int): return x * k
    if k == 1: return x
    return _mkpoly({m: c * k for m, c in x.t})
def _mm(a, b):
    if not a: return b
    if not b: return a
    return tuple(sorted(a + b, key=lambda n: n.id))
def mul(x, y):
    if isinstance(x, int): return scale(y, x)
    if isinstance(y, int): return scale(x, y)
    d = {}
    for m, c in x.t:
        for m2, c2 in y.t:
            mm = _mm(m, m2)
            d[mm] = d.get(mm, 0) + c * c2
    return _mkpoly(d)

def sym(name, lo=None, hi=None, sort='i'):
    n = mk('sym', (name,), sort, lo, hi)
    return atom(n) if sort == 'i' else n
_fresh = itertools.count()
def fresh(name, lo=None, hi=None, sort='i'):
    return sym('%s#%d' % (name, next(_fresh)), lo, hi, sort)
def symnode(p):
    """the N of a single-atom poly (or the node itself)"""
    if isinstance(p, N): return p
    assert len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] == 1
    return p.t[0][0][0]

# ---------------------------------------------------------------- intervals
def _imul(a, b):
    def m(x, y):
        if x == 0 or y == 0: return 0
        return x * y
    v = [m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1])]
    return (min(v), max(v))
def niv(n):
    lo = n.lo if n.lo is not None else -INF
    hi = n.hi if n.hi is not None else INF
    return lo, hi
def iv(x):
    if isinstance(x, int): return (x, x)
    if x._iv is not None: return x._iv
    lo = hi = 0
    for m, c in x.t:
        v = (c, c)
        i = 0
        while i < len(m):
            a = m[i]; j = i
            while j < len(m) and m[j] is a: j += 1
            b = niv(a)
            e = j - i
            if e == 1: v = _imul(v, b)
            else:
                w = b
                for _ in range(e - 1): w = _imul(w, b)
                if e % 2 == 0: w = (max(w[0], 0), w[1])
                v = _imul(v, w)
            i = j
        lo += v[0]; hi += v[1]
    x._iv = (lo, hi)
    return x._iv

# ---------------------------------------------------------------- booleans
import math
def _gcdnorm(p):
    """content of non-constant coefficients"""
    g = 0
    for m, c in p.t:
        if m: g = math.gcd(g, c)
    return g
def _single_ite(p):
    """p == c0 + c1*ite(b,x,y) ?"""
    it = None; c0 = 0; c1 = 0
    for m, c in p.t:
        if not m: c0 = c
        elif len(m) == 1 and m[0].k == 'ite' and it is None: it = m[0]; c1 = c
        else: return None
    if it is None: return None
    return it, c0, c1

def ge0(p):
    """p >= 0"""
    if isinstance(p, int): return p >= 0
    lo, hi = iv(p)
    if lo >= 0: return True
    if hi < 0: return False
    s = _single_ite(p)
    if s:
        it, c0, c1 = s
        b, x, y = it.a
        if isinstance(x, int) or isinstance(y, int):
            return bite(b, ge0(add(scale(x, c1), c0)), ge0(add(scale(y, c1), c0)))
    g = _gcdnorm(p)
    if g > 1:
        d = {}
        for m, c in p.t:
            d[m] = c // g            # floor for the constant is exact for >=0
        p = _mkpoly(d)
    return mk('ge0', (p,), 'b')
def eq0(p):
    if isinstance(p, int): return p == 0
    lo, hi = iv(p)
    if lo > 0 or hi < 0: return False
    s = _single_ite(p)
    if s:
        it, c0, c1 = s
        b, x, y = it.a
        if isinstance(x, int) or isinstance(y, int):
            return bite(b, eq0(add(scale(x, c1), c0)), eq0(add(scale(y, c1), c0)))
    g = _gcdnorm(p)
    if g > 1:
        c0 = dict(p.t).get((), 0)
        if c0 % g: return False
        p = _mkpoly({m: c // g for m, c in p.t})
    # sign normalise: leading (last) coefficient positive
    if p.t[-1][1] < 0: p = neg(p)
    return mk('eq0', (p,), 'b')
def le(x, y): return ge0(sub(y, x))
def lt(x, y): return ge0(sub(sub(y, x), 1))
def eq(x, y): return eq0(sub(x, y))
def bnot(b):
    if isinstance(b, bool): return not b
    if b.k == 'not': return b.a[0]
    if b.k == 'ge0': return ge0(sub(-1, b.a[0]))
    if b.k == 'and': return bor(*[bnot(x) for x in b.a])
    if b.k == 'or': return band(*[bnot(x) for x in b.a])
    return mk('not', (b,), 'b')
def band(*xs):
    r = []; seen = set()
    for x in xs:
        if x is True: continue
        if x is False: return False
        for y in (x.a if x.k == 'and' else (x,)):
            if y not in seen: seen.add(y); r.append(y)
    for y in r:
        nb = bnot(y) if y.k != 'or' else None
        if nb in seen and nb is not None: return False
    if not r: return True
    if len(r) == 1: return r[0]
    r.sort(key=lambda n: n.id)
    return mk('and', tuple(r), 'b')
def bor(*xs):
    r = []; seen = set()
    for x in xs:
        if x is False: continue
        if x is True: return True
        for y in (x.a if x.k == 'or' else (x,)):
            if y not in seen: seen.add(y); r.append(y)
    for y in r:
        nb = bnot(y) if y.k != 'and' else None
        if nb in seen and nb is not None: return True
    if not r: return False
    if len(r) == 1: return r[0]
    r.sort(key=lambda n: n.id)
    return mk('or', tuple(r), 'b')
def bite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else bnot(c)
    return bor(band(c, a), band(bnot(c), b))
def bxor(a, b): return bor(band(a, bnot(b)), band(bnot(a), b))
def bimp(a, b): return bor(bnot(a), b)

# ---------------------------------------------------------------- integer atoms
def ite(c, x, y):
    """integers"""
    if isinstance(c, bool): return x if c else y
    if x is y or (isinstance(x, int) and isinstance(y, int) and x == y): return x
    if c.k == 'not' or (c.k == 'ge0' and bnot(c).id < c.id):
        c = bnot(c); x, y = y, x
    (l1, h1), (l2, h2) = iv(x), iv(y)
    lo, hi = min(l1, l2), max(h1, h2)
    n = mk('ite', (c, x, y), 'i')
    n.lo = lo if lo != -INF else None; n.hi = hi if hi != INF else None
    return atom(n)
def div(a, b):
    """floor division, b > 0"""
    if isinstance(b, int):
        assert b > 0
        if b == 1: return a
        if isinstance(a, int): return a // b
        q = {}; r = {}
        for m, c in a.t:
            if c % b == 0: q[m] = c // b
            elif m == (): q[m] = c // b; r[m] = c % b
            else: r[m] = c
        rp = _mkpoly(r)
        lo, hi = iv(rp)
        if lo >= 0 and hi < b: return _mkpoly(q)
        if q and not (len(q) == 1 and q.get((), 1) == 0):
            return add(_mkpoly(q), div(rp, b)) if rp is not a else _div(a, b)
        return _div(a, b)
    if isinstance(a, int):
        if a == 0: return 0
    elif a is b: return 1
    # exact polynomial division by a single monomial divisor
    if isinstance(a, Poly) and isinstance(b, Poly) and len(b.t) == 1:
        q = pdiv(a, b)
        if q is not None: return q
    lo, hi = iv(a); l2, h2 = iv(b)
    if lo >= 0 and hi < l2: return 0
    return _div(a, b)
def _div(a, b):
    n = mk('div', (a, b), 'i')
    lo, hi = iv(a); l2, h2 = iv(b)
    l2 = max(l2, 1)
    if lo >= 0:
        n.lo = 0
        if hi != INF: n.hi = hi // l2
    elif lo != -INF:
        n.lo = -((-lo + l2 - 1) // l2)
        if hi != INF: n.hi = max(hi // l2, 0) if hi >= 0 else 0
    return atom(n)
def mod(a, b): return sub(a, mul(b, div(a, b)))
def pdiv(a, b):
    """exact polynomial division (None if not exact)"""
    if isinstance(a, int):
        if a == 0: return 0
        return a // b if isinstance(b, int) and b and a % b == 0 else None
    if isinstance(b, int):
        if b == 0: return None
        d = {}
        for m, c in a.t:
            if c % b: return None
            d[m] = c // b
        return _mkpoly(d)
    # leading term = last of sorted tuple
    r = a; q = 0
    lm, lc = b.t[-1]
    for _ in range(64):
        if isinstance(r, int):
            return q if r == 0 else None
        m, c = r.t[-1]
        dm = _mdiv(m, lm)
        if dm is None or c % lc: return None
        term = _mkpoly({dm: c // lc})
        q = add(q, term)
        r = sub(r, mul(term, b))
    return None
def _mdiv(m, d):
    m = list(m)
    for x in d:
        if x in m: m.remove(x)
        else: return None
    return tuple(m)

def uf(name, args, sort='i', lo=None, hi=None):
    n = mk('uf', (name,) + tuple(args), sort)
    if sort == 'i':
        n.lo = lo; n.hi = hi
        return atom(n)
    return n

# ---------------------------------------------------------------- arrays
def arr(name, sort, lo=None, hi=None, extra=()):
    """sort: 'i','f32','f64','b' of the elements; lo/hi const bounds"""
    return mk('arr', (name, sort) + extra, 'a', lo, hi)
def sel(a, idx):
    n = mk('sel', (a, idx), a.a[1])
    if a.a[1] == 'i':
        n.lo = a.lo; n.hi = a.hi
        return atom(n)
    return n

# ---------------------------------------------------------------- floats
def fconst(bits, w): return mk('fc', (bits, w), 'f%d' % w)
def fval(n):
    bits, w = n.a
    return struct.unpack('<f', struct.pack('<I', bits))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', bits))[0]
def fromval(v, w):
    try:
        b = struct.unpack('<I', struct.pack('<f', v))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', v))[0]
    except OverflowError:
        return None
    return fconst(b, w)
COMM = {'fadd', 'fmul'}
def _isneg(x): return x.k == 'fop' and x.a[0] == 'fneg'
def fop(op, args, s):
    args = tuple(args)
    w = int(s[1:])
    if w in (32, 64) and all(x.k == 'fc' for x in args) and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
        v = [fval(x) for x in args]
        try:
            r = {'fadd': lambda: v[0] + v[1], 'fsub': lambda: v[0] - v[1], 'fmul': lambda: v[0] * v[1],
                 'fdiv': lambda: v[0] / v[1], 'fneg': lambda: -v[0]}[op]()
            if op == 'fneg': return fconst(args[0].a[0] ^ (1 << (w - 1)), w)
            if r == r and abs(r) != INF:
                c = fromval(r, w)   # double rounding is innocuous for + - * / of floats in double
                if c is not None: return c
        except (ZeroDivisionError, OverflowError): pass
    # exact sign identities:  x - y = x + (-y),  (-x)*y = -(x*y),  (-x)/y = -(x/y),  -(-x) = x
    if op == 'fsub': return fop('fadd', (args[0], fop('fneg', (args[1],), s)), s)
    if op == 'fmul':   # 1*x = x (the payload of a NaN is not observed)
        for q in (0, 1):
            if args[q].k == 'fc' and fval(args[q]) == 1.0: return args[1 - q]
    if op in ('fmul', 'fdiv'):
        n0, n1 = _isneg(args[0]), _isneg(args[1])
        if n0 or n1:
            r = fop(op, (args[0].a[1] if n0 else args[0], args[1].a[1] if n1 else args[1]), s)
            return r if n0 and n1 else fop('fneg', (r,), s)
    if op == 'fneg':
        if args[0].k == 'fc': return fconst(args[0].a[0] ^ (1 << (w - 1)), w)
        if _isneg(args[0]): return args[0].a[1]
        if args[0].k == 'fite': return fite(args[0].a[0], fop('fneg', (args[0].a[1],), s), fop('fneg', (args[0].a[2],), s))
    if op in COMM and args[0].id > args[1].id: args = (args[1], args[0])
    return mk('fop', (op,) + args, s)
_zn = {}
def znorm(x):
    """x up to the sign of a zero result:  x + 0 = x,  -(x + y) = -x + -y  through sums, products and negations"""
    if not isinstance(x, N) or x.k not in ('fop', 'fite'): return x
    r = _zn.get(x)
    if r is not None: return r
    if x.k == 'fite': r = fite(x.a[0], znorm(x.a[1]), znorm(x.a[2]))
    else:
        op = x.a[0]
        if op not in ('fadd', 'fmul', 'fneg'): r = x
        else:
            a = [znorm(y) for y in x.a[1:]]
            if op == 'fadd' and any(y.k == 'fc' and fval(y) == 0 for y in a):
                r = a[1] if a[0].k == 'fc' and fval(a[0]) == 0 else a[0]
            elif op == 'fadd':        # canonical sign: the operand with the smaller base is not negated
                u, v = sorted(a, key=lambda y: (y.a[1].id if _isneg(y) else y.id))
                if _isneg(u): r = fop('fneg', (fop('fadd', (u.a[1], fop('fneg', (v,), x.s)), x.s),), x.s)
                else: r = fop('fadd', (u, v), x.s)
            else: r = fop(op, a, x.s)
    _zn[x] = r
    return r
def fite(c, x, y):
    if isinstance(c, bool): return x if c else y
    if x is y: return x
    if c.k == 'not' or (c.k == 'ge0' and bnot(c).id < c.id):
        c = bnot(c); x, y = y, x
    return mk('fite', (c, x, y), x.s)
def fcmp(pred, x, y):
    # canonical: use olt / ole / oeq / uno ; others derived
    if x.k == 'fc' and y.k == 'fc':
        a, b = fval(x), fval(y)
        if a == a and b == b:
            return {'o': lambda: True}.get(pred, {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b,
                    'gt': a > b, 'ge': a >= b, 'rd': True, 'no': False}[pred[1:]].__bool__)()
    neg_ = {'une': 'oeq', 'uge': 'olt', 'ugt': 'ole', 'ule': 'ogt', 'ult': 'oge', 'ord': 'uno', 'ueq': 'one'}
    if pred in neg_: return bnot(fcmp(neg_[pred], x, y))
    if pred == 'ogt': return fcmp('olt', y, x)
    if pred == 'oge': return fcmp('ole', y, x)
    if pred in ('oeq', 'uno', 'one') and x.id > y.id: x, y = y, x
    if pred == 'olt' and x is y: return False
    if pred == 'one':
        return band(bnot(fcmp('uno', x, y)), bnot(fcmp('oeq', x, y)))
    if pred == 'uno':
        if x is y: return mk('fcmp', ('uno', x, x), 'b') if x.k != 'fc' else False
        if x.k == 'fc' and fval(x) == fval(x): return fcmp('uno', y, y)
        if y.k == 'fc' and fval(y) == fval(y): return fcmp('uno', x, x)
    return mk('fcmp', (pred, x, y), 'b')
def i2f(p, w, signed):
    if isinstance(p, int):
        try:
            if abs(p) < 2**53:
                c = fromval(float(p), w)
                if c is not None and w == 64 or abs(p) < 2**24: return c
        except OverflowError: pass
    return mk('i2f', (p,), 'f%d' % w)

# ---------------------------------------------------------------- folds
def sort_of(v):
    if isinstance(v, bool): return 'b'
    if isinstance(v, (int, Poly)): return 'i'
    return v.s
def bv(depth, which, sort, lo=None, hi=None):
    n = mk('bv', (depth, which), sort, lo, hi)
    return atom(n) if sort == 'i' else n
def mk_fold(j, count, inits, kvar, accs, steps, widths=None):
    """value of accumulator j after `count` iterations of  acc := step(k,acc).
    kvar: sym poly, accs: list of sym (poly or N), steps: list of terms.
    Accumulators not reachable from j are dropped; plain sums become linear."""
    if isinstance(count, int) and count <= 0: return inits[j]
    # dependency closure
    accn = [symnode(a) for a in accs]
    need = [j]; seen = {j}
    while need:
        x = need.pop()
        f = fv(steps[x])
        for i, a in enumerate(accn):
            if a in f and i not in seen: seen.add(i); need.append(i)
    order = [j] + sorted(seen - {j})
    jj = 0
    inits = [inits[i] for i in order]; steps = [steps[i] for i in order]
    accs = [accs[i] for i in order]; accn = [accn[i] for i in order]
    widths = [widths[i] if widths else None for i in order]
    if len(order) == 1:
        s = sort_of(steps[0])
        if not isinstance(steps[0], bool) and steps[0] is accs[0]: return inits[0]
        if s == 'i':
            d = sub(steps[0], accs[0])
            if accn[0] in fv(d): d = _increment(steps[0], accs[0], accn[0])
            if d is not None:                  # a sum, exact in the ring
                return add(inits[0], mk_sum(count, kvar, d))
    return _close('fold', jj, count, inits, kvar, accs, steps, widths)
def _increment(x, acc, an):
    """what x adds to the accumulator, if that does not depend on it"""
    d = sub(x, acc)
    if an not in fv(d): return d
    if isinstance(x, int): return None
    it = [(m, c) for m, c in x.t if any(an in fv(a) for a in m)]
    if len(it) != 1 or it[0][1] != 1 or len(it[0][0]) != 1 or it[0][0][0].k != 'ite': return None
    b, u, v = it[0][0][0].a
    if an in fv(b): return None
    u = _increment(u, acc, an)
    if u is None: return None
    v = _increment(v, acc, an)
    if v is None: return None
    return add(ite(b, u, v), sub(x, atom(it[0][0][0])))
def _close(kind, jj, count, inits, kvar, accs, steps, widths):
    depth = 1 + max([height(s) for s in steps] + [0])
    lo, hi = iv(count)
    m = {symnode(kvar): bv(depth, 'k', 'i', 0, hi - 1 if hi != INF else None)}
    for i, a in enumerate(accs):
        s = sort_of(a)
        w = widths[i]
        m[symnode(a)] = bv(depth, 'a%d' % i, s, -(1 << (w - 1)) if (w and s == 'i') else None, (1 << (w - 1)) - 1 if (w and s == 'i') else None)
    st = tuple(subst(s, m) for s in steps)
    js = sort_of(steps[jj])
    n = mk('fold', (depth, jj, count, tuple(inits), st, tuple(widths), hi), js)
    if js == 'i':
        w = widths[jj]
        if w: n.lo, n.hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return atom(n)
    return n
def mk_sum(count, kvar, body):
    """sum_{k<count} body(k), linear, constants pulled out"""
    if isinstance(body, int): return mul(count, body)
    k = symnode(kvar)
    if k not in fv(body): return mul(count, body)
    r = 0
    for m, c in body.t:
        dep = tuple(a for a in m if k in fv(a)); ind = tuple(a for a in m if k not in fv(a))
        co = _mkpoly({ind: c})
        if not dep: r = add(r, mul(co, count)); continue
        if dep == (k,):
            # k summed: count*(count-1)/2
            r = add(r, mul(co, div(mul(count, sub(count, 1)), 2))); continue
        p = _mkpoly({dep: 1})
        depth = 1 + height(p)
        lo, hi = iv(count)
        b = bv(depth, 'k', 'i', 0, hi - 1 if hi != INF else None)
        acc = bv(depth, 'a0', 'i')
        n = mk('fold', (depth, 0, count, (0,), (add(acc, subst(p, {k: b})),), (None,), hi), 'i')
        l, h = iv(p)
        if lo >= 0:
            if l >= 0: n.lo = 0
            elif l != -INF and hi != INF: n.lo = l * hi
            if h <= 0: n.hi = 0
            elif h != INF and hi != INF: n.hi = h * hi
        r = add(r, mul(co, atom(n)))
    return r
def fold_open(n, tag='o'):
    """-> (kvar, accs, steps, inits, count, j, widths) with fresh variables"""
    depth, j, count, inits, st, widths, hi = n.a
    k = fresh(tag + 'k', 0, hi - 1 if hi != INF else None)
    kb = None
    m = {}
    allv = fv(st)
    accs = []
    for i, s in enumerate(st):
        so = sort_of(inits[i]) if not isinstance(inits[i], bool) else 'b'
        w = widths[i]
        a = fresh(tag + 'a', -(1 << (w - 1)) if (w and so == 'i') else None, (1 << (w - 1)) - 1 if (w and so == 'i') else None, so)
        accs.append(a)
    for v in allv:
        if v.k == 'bv' and v.a[0] == depth:
            m[v] = k if v.a[1] == 'k' else accs[int(v.a[1][1:])]
    return k, accs, [subst(s, m) for s in st], list(inits), count, j, list(widths)
def fold_is_sum(n):
    return n.k == 'fold' and n.s == 'i' and len(n.a[4]) == 1 and n.a[5][0] is None

# ---------------------------------------------------------------- substitution
def subst(x, m, memo=None):
    """m: N(sym/bv/arr) -> term"""
    if not m: return x
    if memo is None: memo = {}
    keys = m.keys()
    return _subst(x, m, keys, memo)
def _subst(x, m, keys, memo):
    if x is None or isinstance(x, (int, str, float, bool)): return x
    if isinstance(x, tuple):
        return tuple(_subst(y, m, keys, memo) for y in x)
    if isinstance(x, Ptr): return Ptr(x.obj, _subst(x.off, m, keys, memo))
    if not isinstance(x, (N, Poly)): return x
    if fv(x).isdisjoint(keys): return x
    r = memo.get(x)
    if r is not None: return r
    S = lambda y: _subst(y, m, keys, memo)
    if isinstance(x, Poly):
        r = 0
        for mo, c in x.t:
            t = c
            for a in mo: t = mul(t, _natom(S(a)))
            r = add(r, t)
    elif x in m: r = m[x]
    else: r = rebuild(x, S)
    memo[x] = r
    return r
def _natom(v):
    return atom(v) if isinstance(v, N) else v
def rebuild(x, S):
    k = x.k; a = x.a
    if k == 'ge0': return ge0(S(a[0]))
    if k == 'eq0': return eq0(S(a[0]))
    if k == 'and': return band(*[S(y) for y in a])
    if k == 'or': return bor(*[S(y) for y in a])
    if k == 'not': return bnot(S(a[0]))
    if k == 'ite': return ite(S(a[0]), S(a[1]), S(a[2]))
    if k == 'fite': return fite(S(a[0]), S(a[1]), S(a[2]))
    if k == 'div': return div(S(a[0]), S(a[1]))
    if k == 'sel': return sel(S(a[0]), S(a[1]))
    if k == 'fop': return fop(a[0], [S(y) for y in a[1:]], x.s)
    if k == 'fcmp': return fcmp(a[0], S(a[1]), S(a[2]))
    if k == 'i2f': return i2f(S(a[0]), int(x.s[1:]), True)
    if k == 'feq':
        x, y = S(a[0]), S(a[1])
        return True if x is y else mk('feq', (x, y) if x.id < y.id else (y, x), 'b')
    if k == 'uf':
        n = uf(a[0], [S(y) for y in a[1:]], x.s, x.lo, x.hi)
        return n
    if k == 'fold':
        kv, accs, steps, inits, count, j, widths = fold_open(x)
        return mk_fold(j, S(count), [S(i) for i in inits], kv, accs, [S(s) for s in steps], widths)
    raise Exception('rebuild ' + k)

# ---------------------------------------------------------------- traversal / printing
def atoms_of(x, out=None, into_folds=False):
    """all N nodes reachable (not under binders)"""
    if out is None: out = {}
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple): st.extend(y); continue
        if isinstance(y, Poly):
            for m, c in y.t: st.extend(m)
            continue
        if not isinstance(y, N) or y in out: continue
        out[y] = 1
        if y.k == 'fold':
            st.append(y.a[2]); st.append(y.a[3])
            if into_folds: st.append(y.a[4])
        else: st.extend(y.a)
    return out

def show(x, d=0):
    if isinstance(x, Poly):
        o = []
        for m, c in reversed(x.t):
            s = '*'.join(show(a, d + 1) for a in m)
            if not s: o.append(str(c))
            elif c == 1: o.append(s)
            elif c == -1: o.append('-' + s)
            else: o.append('%d*%s' % (c, s))
        return '(' + ' + '.join(o) + ')' if len(o) > 1 else o[0]
    if isinstance(x, N):
        if d > 14: return '..'
        if x.k == 'sym': return x.a[0]
        if x.k == 'arr': return x.a[0]
        if x.k == 'bv': return '$%d%s' % x.a
        if x.k == 'sel': return '%s[%s]' % (show(x.a[0]), show(x.a[1], d + 1))
        if x.k == 'ge0': return '%s>=0' % show(x.a[0], d + 1)
        if x.k == 'eq0': return '%s==0' % show(x.a[0], d + 1)
        if x.k == 'fc': return repr(fval(x))
        if x.k == 'fold':
            return 'fold%d[%s; n=%s; init=%s; step=%s]' % (x.a[0], x.a[1], show(x.a[2], d + 1), ','.join(show(y, d + 1) for y in x.a[3]), ' | '.join(show(y, d + 1) for y in x.a[4]))
        return '%s(%s)' % (x.k, ', '.join(show(y, d + 1) for y in x.a))
    if isinstance(x, tuple): return '(' + ','.join(show(y, d + 1) for y in x) + ')'
    return str(x)
