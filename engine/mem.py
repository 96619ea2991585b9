"""Memory model: objects with constant-offset cells, symbolic layers and a base content."""
from terms import *
import itertools

class Unsupported(Exception): pass
class ForkOn(Exception):
    """the current instruction needs a case split on condition c"""
    def __init__(s, c): s.c = c; Exception.__init__(s, 'case split')
_oid = itertools.count(1)

class Point:
    __slots__ = ('off', 'size', 'val')
    def __init__(s, off, size, val): s.off = off; s.size = size; s.val = val
    def key(s): return ('P', s.off, s.size, s.val)
    def subst(s, m): return Point(subst(s.off, m), s.size, subst(s.val, m) if not isinstance(s.val, Undef) else s.val)
    def __repr__(s): return 'Pt[%s:%d]=%s' % (show(s.off), s.size, show(s.val))
class Range:
    """for all k (each 0<=k<count) with guard: [off(k), off(k)+size) = val(k)"""
    __slots__ = ('bs', 'guard', 'off', 'size', 'val', 'inj')
    def __init__(s, bs, guard, off, size, val, inj=None):
        s.bs = bs; s.guard = guard; s.off = off; s.size = size; s.val = val; s.inj = inj
    def canon(s):
        m = {}
        for i, (k, c) in enumerate(s.bs): m[symnode(k)] = sym('@b%d' % i, 0, None)
        return ('R', tuple(subst(c, m) for k, c in s.bs), subst(s.guard, m), subst(s.off, m), s.size, subst(s.val, m) if not isinstance(s.val, Undef) else 'undef')
    def key(s): return s.canon()
    def subst(s, m):
        return Range([(k, subst(c, m)) for k, c in s.bs], subst(s.guard, m), subst(s.off, m), s.size,
                     subst(s.val, m) if not isinstance(s.val, Undef) else s.val)
    def __repr__(s): return 'Rg{%s|%s}[%s:%d]=%s' % (','.join('%s<%s' % (show(k), show(c)) for k, c in s.bs), show(s.guard), show(s.off), s.size, show(s.val))
class Fill:
    __slots__ = ('off', 'n', 'byte')
    def __init__(s, off, n, byte): s.off = off; s.n = n; s.byte = byte
    def key(s): return ('F', s.off, s.n, s.byte)
    def subst(s, m): return Fill(subst(s.off, m), subst(s.n, m), s.byte)
class PFold:
    """content of element p (bytes [p*size, p*size+size)) := accumulator 0 of a fold over k<count, started at the
    content underneath; accumulators 1.. are scalars the writes depend on.  p ranges over all elements."""
    __slots__ = ('k', 'count', 'p', 'accs', 'inits', 'steps', 'size', 'widths')
    def __init__(s, k, count, p, accs, inits, steps, size, widths):
        s.k = k; s.count = count; s.p = p; s.accs = accs; s.inits = inits; s.steps = steps; s.size = size; s.widths = widths
    def canon(s):
        m = {symnode(s.k): sym('@k', 0, None), symnode(s.p): sym('@p')}
        for i, a in enumerate(s.accs):
            so = sort_of(a); m[symnode(a)] = sym('@acc%d_%s' % (i, so), sort=so)
        return ('PF', s.count, tuple(s.inits), tuple(subst(x, m) for x in s.steps), s.size, tuple(s.widths))
    def key(s): return s.canon()
    def subst(s, m): return PFold(s.k, subst(s.count, m), s.p, s.accs, [subst(x, m) for x in s.inits], [subst(x, m) for x in s.steps], s.size, s.widths)
    def __repr__(s): return 'PF{%s<%s}[%s] %s' % (show(s.k), show(s.count), show(s.p), show(s.steps[0])[:300])

class Obj:
    __slots__ = ('id', 'size', 'kind', 'alive', 'cells', 'layers', 'base', 'const', 'name', 'align', 'owner', 'ety')
    def __init__(s, size, kind, name, base=('uninit',), align=16):
        s.id = next(_oid); s.size = size; s.kind = kind; s.alive = True
        s.cells = {}; s.layers = (); s.base = base; s.const = False; s.name = name; s.align = align; s.owner = None
        s.ety = None      # (size, sort) of elements seen
    def clone(s, owner):
        o = Obj.__new__(Obj)
        o.id = s.id; o.size = s.size; o.kind = s.kind; o.alive = s.alive
        o.cells = dict(s.cells); o.layers = s.layers; o.base = s.base; o.const = s.const
        o.name = s.name; o.align = s.align; o.owner = owner; o.ety = s.ety
        return o

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'prev', 'ip', 'ret', 'allocas', 'loops', 'byvals')
    def clone(s):
        f = Frame.__new__(Frame)
        f.fn = s.fn; f.regs = dict(s.regs); f.blk = s.blk; f.prev = s.prev; f.ip = s.ip
        f.ret = s.ret; f.allocas = list(s.allocas); f.loops = dict(s.loops); f.byvals = s.byvals
        return f

_tok = itertools.count()
class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcset', 'tok', 'exc', 'live', 'qf', 'steps', 'all', 'ob')
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = (); s.pcset = frozenset(); s.tok = next(_tok); s.exc = None; s.live = 0
        s.qf = (); s.steps = 0; s.all = (); s.ob = frozenset()
    def fork(s):
        n = State.__new__(State)
        n.frames = [f.clone() for f in s.frames]
        n.mem = dict(s.mem); n.pc = s.pc; n.pcset = s.pcset; n.exc = s.exc; n.live = s.live; n.qf = s.qf; n.steps = s.steps; n.all = s.all; n.ob = s.ob
        n.tok = next(_tok); s.tok = next(_tok)     # both lose write ownership
        return n
    def assume(s, c):
        if c is True: return
        if c is False or not isinstance(c, N):
            s.pc = s.pc + (False,); return
        for x in (c.a if c.k == 'and' else (c,)):
            if x not in s.pcset:
                s.pc = s.pc + (x,); s.pcset = s.pcset | {x}
    def assume_obl(s, c):
        """assume an obligation: what it adds is implied on every execution that got here"""
        n0 = len(s.pc); s.assume(c)
        s.ob = s.ob | {x for x in s.pc[n0:] if isinstance(x, N)}
    def wobj(s, oid):
        o = s.mem[oid]
        if o.owner != s.tok:
            o = o.clone(s.tok); s.mem[oid] = o
        return o
    def newobj(s, size, kind, name, base=('uninit',), align=16):
        o = Obj(size, kind, name, base, align); o.owner = s.tok; s.mem[o.id] = o
        return o
