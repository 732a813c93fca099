"""nx_mem_block.c under contract."""
from ..sym import *
from ..contract import *
from ..engine import Out

FILES = ['src/nx_mem_block.c', 'src/nx_alloc.c']
H = 'virg/nexus/nx_mem_block.h'
MAXSZ = (1 << 48)
FIELDS = ['ptr', 'size', 'capacity', 'own_memory']
TYS = {'ptr': 'ptr', 'size': 'i64', 'capacity': 'i64', 'own_memory': 'i32'}


def mk_block(b, name, shape):
    """shape: empty | owned | wrapped  -- the well-formed states of a block"""
    if shape == 'empty':
        v = {'ptr': ('ptr', NULL), 'size': ('i64', IV(64, 0)), 'capacity': ('i64', IV(64, 0)), 'own_memory': ('i32', IV(32, 0))}
        o = b.struct(name, H, 'struct NXMemBlock', v)
        o.data = None
    else:
        sz = b.int(name + '.size', 64, 0, MAXSZ); cap = b.int(name + '.capacity', 64, 0, MAXSZ)
        b.st.assume(le(sz.t, cap.t))
        if shape == 'owned': b.st.assume(le(1, cap.t))
        d = b.array(name + '.data', 'i8', cap.t, kind='hparam' if shape == 'owned' else 'param')
        if shape == 'owned': own = IV(32, 1)
        else: own = IV(32, 0)
        v = {'ptr': ('ptr', PV(d, 0)), 'size': ('i64', sz), 'capacity': ('i64', cap), 'own_memory': ('i32', own)}
        o = b.struct(name, H, 'struct NXMemBlock', v)
        o.data = d
    return o


def ensure_fo(o):
    if not hasattr(o, 'fo'):
        lay = llir_offsets(H, 'struct NXMemBlock', FIELDS)
        o.fo = {f: (lay[f][0], TYS[f]) for f in FIELDS}
        if o.layout is None: o.layout = ('struct', [(lay[f][0], TYS[f], f) for f in FIELDS])
    return o


def spec_reserve(e, st, mem, n):
    """-> list of states: capacity >= n, first `size` bytes kept, same block iff no growth"""
    out = []
    ensure_fo(mem)
    cap, size, ptr, own = (fld(e, st, mem, f) for f in ('capacity', 'size', 'ptr', 'own_memory'))
    for t, s2 in branch(e, st, lt(cap.t, n)):
        if t:
            d = fresh_obj('grown', n, ('arr', 'i8'))
            d.defined = lambda i, size=size: lt(i, size.t)
            if ptr.obj is not None:
                s2.mem[d] = Layer('cp', None, idx=None, off=0, n=size.t, sobj=ptr.obj, sidx=None, soff=ptr.off, slayer=s2.mem.get(ptr.obj))
                if isc(own.t) and own.t != 0: s2.dead[ptr.obj] = True
                elif not isc(own.t): raise Unsupported('ownership unknown')
            setf(e, s2, mem, 'ptr', PV(d, 0)); setf(e, s2, mem, 'capacity', IV(64, n, 0, MAXSZ)); setf(e, s2, mem, 'own_memory', IV(32, 1))
        out.append(s2)
    return out


def own_known(e, st, mem):
    own = fld(e, st, mem, 'own_memory')
    if not isc(own.t):
        d = e.decide(st, eq(own.t, 0))
        if d is None: raise ForkOn(eq(own.t, 0))


class MB(Contract):
    pass


class Alloc(MB):
    name = 'nx_mem_block_alloc'
    def setup(s, e, case):
        b = B(e); return b.st, [], b.aux()
    def spec(s, e, st, args):
        o = fresh_obj('memblock', llir_offsets(H, 'struct NXMemBlock', FIELDS)[''][1])
        ensure_fo(o)
        setf(e, st, o, 'ptr', NULL); setf(e, st, o, 'size', IV(64, 0)); setf(e, st, o, 'capacity', IV(64, 0)); setf(e, st, o, 'own_memory', IV(32, 0))
        return [(st, PV(o, 0))]


class Reserve(MB):
    name = 'nx_mem_block_reserve'
    cases = ('empty', 'owned', 'wrapped')
    def setup(s, e, case):
        b = B(e); m = mk_block(b, 'mem', case); n = b.int('n', 64, 0, MAXSZ)
        return b.st, [PV(m, 0), n], b.aux()
    def spec(s, e, st, args):
        m = args[0].obj
        e.oblige(st, args[0].obj is not None and eq(args[0].off, 0), 'pre', 'block pointer')
        own_known(e, st, ensure_fo(m))
        return [(x, fld(e, x, m, 'ptr')) for x in spec_reserve(e, st, m, e.U(st, args[1]))]


class Resize(Reserve):
    name = 'nx_mem_block_resize'
    def spec(s, e, st, args):
        m = args[0].obj
        own_known(e, st, ensure_fo(m))
        out = []
        n = e.U(st, args[1])
        for x in spec_reserve(e, st, m, n):
            setf(e, x, m, 'size', IV(64, n, 0, MAXSZ)); out.append((x, fld(e, x, m, 'ptr')))
        return out


class New(MB):
    name = 'nx_mem_block_new'
    def setup(s, e, case):
        b = B(e); n = b.int('n', 64, 0, MAXSZ); return b.st, [n], b.aux()
    def spec(s, e, st, args):
        (st, p), = Alloc().spec(e, st, [])
        return [(x, p) for x, _ in Resize().spec(e, st, [p, args[0]])]


class Free(MB):
    name = 'nx_mem_block_free'
    cases = ('null', 'empty', 'owned', 'wrapped')
    def setup(s, e, case):
        b = B(e)
        return b.st, [NULL if case == 'null' else PV(mk_block(b, 'mem', case), 0)], b.aux()
    def spec(s, e, st, args):
        m = args[0].obj
        if m is not None:
            ensure_fo(m); own_known(e, st, m)
            own, ptr = fld(e, st, m, 'own_memory'), fld(e, st, m, 'ptr')
            if isc(own.t) and own.t and ptr.obj is not None: st.dead[ptr.obj] = True
            st.dead[m] = True
        return [(st, None)]


class Release(MB):
    name = 'nx_mem_block_release'
    cases = ('empty', 'owned', 'wrapped')
    def setup(s, e, case):
        b = B(e); return b.st, [PV(mk_block(b, 'mem', case), 0)], b.aux()
    def spec(s, e, st, args):
        m = ensure_fo(args[0].obj); own_known(e, st, m)
        own, ptr = fld(e, st, m, 'own_memory'), fld(e, st, m, 'ptr')
        if isc(own.t) and own.t and ptr.obj is not None: st.dead[ptr.obj] = True
        setf(e, st, m, 'ptr', NULL); setf(e, st, m, 'size', IV(64, 0)); setf(e, st, m, 'capacity', IV(64, 0)); setf(e, st, m, 'own_memory', IV(32, 0))
        return [(st, None)]


class Wrap(MB):
    name = 'nx_mem_block_wrap'
    cases = ('empty', 'owned', 'wrapped')
    def setup(s, e, case):
        b = B(e); m = mk_block(b, 'mem', case)
        sz, cap = b.int('sz', 64, 0, MAXSZ), b.int('cap', 64, 0, MAXSZ)
        b.st.assume(le(sz.t, cap.t))
        d = b.array('buf', 'i8', cap.t)
        return b.st, [PV(m, 0), PV(d, 0), sz, cap, b.int('own', 32)], b.aux()
    def spec(s, e, st, args):
        m = args[0].obj
        (st, _), = Release().spec(e, st, args[:1])
        setf(e, st, m, 'ptr', args[1]); setf(e, st, m, 'size', args[2]); setf(e, st, m, 'capacity', args[3]); setf(e, st, m, 'own_memory', args[4])
        return [(st, args[1])]


class Swap(MB):
    name = 'nx_mem_block_swap'
    cases = tuple('%s/%s' % (a, c) for a in ('empty', 'owned', 'wrapped') for c in ('empty', 'owned', 'wrapped')) + ('self',)
    def setup(s, e, case):
        b = B(e)
        if case == 'self':
            m = mk_block(b, 'mem', 'owned'); return b.st, [PV(m, 0), PV(m, 0)], b.aux()
        x, y = case.split('/')
        m0, m1 = mk_block(b, 'mem0', x), mk_block(b, 'mem1', y)
        return b.st, [PV(m0, 0), PV(m1, 0)], b.aux()
    def spec(s, e, st, args):
        a, c = ensure_fo(args[0].obj), ensure_fo(args[1].obj)
        va = {f: fld(e, st, a, f) for f in FIELDS}; vc = {f: fld(e, st, c, f) for f in FIELDS}
        for f in FIELDS: setf(e, st, a, f, vc[f])
        for f in FIELDS: setf(e, st, c, f, va[f])
        return [(st, None)]


class Copy(MB):
    name = 'nx_mem_block_copy'
    cases = tuple('%s/%s' % (a, c) for a in ('empty', 'owned', 'wrapped') for c in ('empty', 'owned', 'wrapped'))
    def setup(s, e, case):
        b = B(e); x, y = case.split('/')
        d, sr = mk_block(b, 'dest', x), mk_block(b, 'src', y)
        return b.st, [PV(d, 0), PV(sr, 0)], b.aux()
    def spec(s, e, st, args):
        d, sr = ensure_fo(args[0].obj), ensure_fo(args[1].obj)
        n = fld(e, st, sr, 'size')
        out = []
        for x, p in Resize().spec(e, st, [args[0], n]):
            sp = fld(e, x, sr, 'ptr')
            if sp.obj is not None and p.obj is not None:
                x.mem[p.obj] = Layer('cp', x.mem.get(p.obj), idx=None, off=p.off, n=n.t, sobj=sp.obj, sidx=None, soff=sp.off, slayer=x.mem.get(sp.obj))
                if getattr(p.obj, 'spec_fresh', False): p.obj.defined = lambda i, n=n: lt(i, n.t)
            out.append((x, p))
        return out


class Copy0(MB):
    name = 'nx_mem_block_copy0'
    cases = ('empty', 'owned', 'wrapped')
    def setup(s, e, case):
        b = B(e); return b.st, [PV(mk_block(b, 'src', case), 0)], b.aux()
    def spec(s, e, st, args):
        (st, p), = Alloc().spec(e, st, [])
        return [(x, p) for x, _ in Copy().spec(e, st, [p, args[0]])]


class SetZero(MB):
    name = 'nx_mem_block_set_zero'
    cases = ('empty', 'owned', 'wrapped')
    def setup(s, e, case):
        b = B(e); return b.st, [PV(mk_block(b, 'mem', case), 0)], b.aux()
    def spec(s, e, st, args):
        m = ensure_fo(args[0].obj)
        ptr, sz = fld(e, st, m, 'ptr'), fld(e, st, m, 'size')
        if ptr.obj is not None:
            st.mem[ptr.obj] = Layer('fill', st.mem.get(ptr.obj), idx=None, off=ptr.off, n=sz.t, byte=IV(8, 0))
        return [(st, None)]


ALL = [Alloc, Reserve, Resize, New, Free, Release, Wrap, Swap, Copy, Copy0, SetZero]
CONTRACTS = {c.name: c() for c in ALL}
