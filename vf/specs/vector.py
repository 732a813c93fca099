"""nx_vector_gen.c, as instantiated by nx_keypoint_vector.c, under contract."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out
from . import mem_block as mb

FILES = ['src/nx_keypoint_vector.c', 'src/nx_mem_block.c', 'src/nx_alloc.c']
H = 'virg/nexus/nx_keypoint_vector.h'
V = 'struct NXKeypointVector'
FIELDS = ['size', 'capacity', 'data', 'mem']
TY = {'size': 'i64', 'capacity': 'i64', 'data': 'ptr', 'mem': 'ptr'}
SHAPES = ('empty', 'owned', 'wrapped')
MAXN = 1 << 40


def isz(): return llir_offsets('virg/nexus/nx_keypoint.h', 'struct NXKeypoint', ['x'])[''][1]


def mk_vec(b, name, shape):
    """well-formed vector: size/capacity in items mirror the block's bytes, data aliases the block"""
    I = isz()
    m = mb.mk_block(b, name + '.mem', shape)
    if shape == 'empty': sz, cap, data = IV(64, 0), IV(64, 0), NULL
    else:
        sz, cap = b.int(name + '.size', 64, 0, MAXN), b.int(name + '.capacity', 64, 0, MAXN)
        bsz, bcap = m.cells[m.fo['size'][0]][1], m.cells[m.fo['capacity'][0]][1]
        b.st.assume(eq(bsz.t, mul(sz.t, I))); b.st.assume(eq(bcap.t, mul(cap.t, I)))
        data = PV(m.data, 0)
    v = b.struct(name, H, V, {'size': ('i64', sz), 'capacity': ('i64', cap), 'data': ('ptr', data), 'mem': ('ptr', PV(m, 0))})
    v.block = m
    return v


def ensure(o):
    if not hasattr(o, 'fo'):
        lay = llir_offsets(H, V, FIELDS)
        o.fo = {f: (lay[f][0], TY[f]) for f in FIELDS}
        if o.layout is None: o.layout = ('struct', [(lay[f][0], TY[f], f) for f in FIELDS])
    return o


def sync(e, st, v):
    """the vector's public fields mirror its block"""
    m = mb.ensure_fo(fld(e, st, ensure(v), 'mem').obj)
    I = isz()
    sz, cap, p = fld(e, st, m, 'size'), fld(e, st, m, 'capacity'), fld(e, st, m, 'ptr')
    setf(e, st, v, 'size', IV(64, divI(sz.t, I))); setf(e, st, v, 'capacity', IV(64, divI(cap.t, I))); setf(e, st, v, 'data', p)


def divI(t, I):
    if isc(t): return t // I
    from ..engine import div_exact
    d = div_exact(t, I)
    return d if d is not None else idiv(t, I)


def blk(e, st, v): return fld(e, st, ensure(v), 'mem')


class VC(Contract):
    pass


class Alloc(VC):
    """a fresh vector with no items over a fresh empty block"""
    name = 'nx_keypoint_vector_alloc'
    def setup(s, e, case): b = B(e); return b.st, [], b.aux()
    def spec(s, e, st, args):
        (st, p), = mb.Alloc().spec(e, st, [])
        o = ensure(fresh_obj('vector', llir_offsets(H, V, FIELDS)[''][1]))
        setf(e, st, o, 'size', IV(64, 0)); setf(e, st, o, 'capacity', IV(64, 0)); setf(e, st, o, 'data', NULL); setf(e, st, o, 'mem', p)
        return [(st, PV(o, 0))]


class Reserve(VC):
    """capacity becomes max(old, n); the items and the size are kept"""
    name = 'nx_keypoint_vector_reserve'; cases = SHAPES
    def setup(s, e, case):
        b = B(e); v = mk_vec(b, 'v', case); return b.st, [PV(v, 0), b.int('n', 64, 0, MAXN)], b.aux()
    def spec(s, e, st, args):
        v = ensure(args[0].obj); n = e.U(st, args[1]); cap = fld(e, st, v, 'capacity')
        mb.own_known(e, st, mb.ensure_fo(blk(e, st, v).obj))
        out = []
        for t, x in branch(e, st, lt(cap.t, n)):
            if not t: out.append((x, None)); continue
            for y in mb.spec_reserve(e, x, blk(e, x, v).obj, mul(n, isz())):
                sync(e, y, v); out.append((y, None))
        return out


class New(VC):
    """an empty vector with at least the requested capacity"""
    name = 'nx_keypoint_vector_new'
    def setup(s, e, case): b = B(e); return b.st, [b.int('n', 32, 0, None)], b.aux()
    def spec(s, e, st, args):
        (st, p), = Alloc().spec(e, st, [])
        return [(x, p) for x, _ in Reserve().spec(e, st, [p, IV(64, e.S(st, args[0]))])]


class Free(VC):
    """frees the vector, its block and the items it owns; NULL is ignored"""
    name = 'nx_keypoint_vector_free'; cases = ('null',) + SHAPES
    def setup(s, e, case):
        b = B(e); return b.st, [NULL if case == 'null' else PV(mk_vec(b, 'v', case), 0)], b.aux()
    def spec(s, e, st, args):
        if args[0].obj is None: return [(st, None)]
        (st, _), = mb.Free().spec(e, st, [blk(e, st, args[0].obj)])
        st.dead[args[0].obj] = True
        return [(st, None)]


class Release(VC):
    """drops the items (freeing owned memory) and leaves an empty usable vector"""
    name = 'nx_keypoint_vector_release'; cases = SHAPES
    def setup(s, e, case): b = B(e); return b.st, [PV(mk_vec(b, 'v', case), 0)], b.aux()
    def spec(s, e, st, args):
        v = args[0].obj
        (st, _), = mb.Release().spec(e, st, [blk(e, st, v)])
        setf(e, st, v, 'size', IV(64, 0)); setf(e, st, v, 'capacity', IV(64, 0)); setf(e, st, v, 'data', NULL)
        return [(st, None)]


class Resize(VC):
    """exactly n items; the first min(old, n) are kept"""
    name = 'nx_keypoint_vector_resize'; cases = SHAPES
    def setup(s, e, case):
        b = B(e); v = mk_vec(b, 'v', case); return b.st, [PV(v, 0), b.int('n', 64, 0, MAXN)], b.aux()
    def spec(s, e, st, args):
        v = ensure(args[0].obj)
        out = []
        for x, _ in mb.Resize().spec(e, st, [blk(e, st, v), IV(64, mul(e.U(st, args[1]), isz()), 0, 1 << 62)]):
            sync(e, x, v); out.append((x, None))
        return out


class Clear(VC):
    """no items; the memory stays"""
    name = 'nx_keypoint_vector_clear'; cases = SHAPES
    def setup(s, e, case): b = B(e); return b.st, [PV(mk_vec(b, 'v', case), 0)], b.aux()
    def spec(s, e, st, args): return Resize().spec(e, st, [args[0], IV(64, 0)])


class Wrap(VC):
    """the vector shows the caller's array; it will free it only when told to own it"""
    name = 'nx_keypoint_vector_wrap'; cases = SHAPES
    def setup(s, e, case):
        b = B(e); v = mk_vec(b, 'v', case)
        sz, cap = b.int('sz', 64, 0, MAXN), b.int('cap', 64, 0, MAXN)
        b.st.assume(le(sz.t, cap.t))
        d = b.array('items', 'i8', mul(cap.t, isz()))
        return b.st, [PV(v, 0), PV(d, 0), sz, cap, b.int('own', 32)], b.aux()
    def spec(s, e, st, args):
        v = args[0].obj; I = isz()
        (st, _), = mb.Wrap().spec(e, st, [blk(e, st, v), args[1], IV(64, mul(e.U(st, args[2]), I), 0, 1 << 62), IV(64, mul(e.U(st, args[3]), I), 0, 1 << 62), args[4]])
        sync(e, st, v)
        return [(st, None)]


class Copy(VC):
    """dest holds the same items as src in memory of its own; src is unchanged"""
    name = 'nx_keypoint_vector_copy'; cases = tuple('%s/%s' % (a, c) for a in SHAPES for c in SHAPES)
    def setup(s, e, case):
        b = B(e); x, y = case.split('/')
        return b.st, [PV(mk_vec(b, 'dest', x), 0), PV(mk_vec(b, 'src', y), 0)], b.aux()
    def spec(s, e, st, args):
        d, sr = args[0].obj, args[1].obj
        out = []
        for x, _ in mb.Copy().spec(e, st, [blk(e, st, d), blk(e, st, sr)]):
            sync(e, x, d); out.append((x, None))
        return out


class Copy0(VC):
    """a fresh vector with the same items"""
    name = 'nx_keypoint_vector_copy0'; cases = SHAPES
    def setup(s, e, case): b = B(e); return b.st, [PV(mk_vec(b, 'src', case), 0)], b.aux()
    def spec(s, e, st, args):
        (st, p), = Alloc().spec(e, st, [])
        return [(x, p) for x, _ in Copy().spec(e, st, [p, args[0]])]


class PushBack(VC):
    """one more item; all earlier items kept; returns the address of the new last item"""
    name = 'nx_keypoint_vector_push_back'; cases = SHAPES
    leakcheck = True
    def setup(s, e, case): b = B(e); return b.st, [PV(mk_vec(b, 'v', case), 0)], b.aux(case=case)

    def compare(s, e, st0, co, so, args, aux): pass

    spec = None

    def post(s, e, st0, o, args, aux):
        st = o.st; v = args[0].obj; I = isz()
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        s0, c0, d0 = (fld(e, st0, v, f) for f in ('size', 'capacity', 'data'))
        s1, c1, d1, m1 = (fld(e, st, v, f) for f in ('size', 'capacity', 'data', 'mem'))
        e.oblige(st, eq(e.U(st, s1), add(e.U(st0, s0), 1)), 'post', 'size grows by one')
        e.oblige(st, le(e.U(st, s1), e.U(st, c1)), 'post', 'size within capacity')
        e.oblige(st, m1.obj is v.block, 'frame', 'same block object')
        m = v.block
        p, bs, bc, own = (fld(e, st, m, f) for f in ('ptr', 'size', 'capacity', 'own_memory'))
        e.oblige(st, eq(e.U(st, bs), mul(e.U(st, s1), I)), 'post', 'block size matches the vector size')
        e.oblige(st, eq(e.U(st, bc), mul(e.U(st, c1), I)), 'post', 'block capacity matches the vector capacity')
        e.oblige(st, p.obj is not None and p.obj is d1.obj and eq(p.off, 0) and eq(d1.off, 0), 'post', 'data aliases the block')
        if p.obj is None: return
        e.oblige(st, p.nullc is False, 'post', 'data not null')
        e.oblige(st, st.dead.get(p.obj) is None, 'memory-safety', 'data is alive')
        e.oblige(st, le(e.U(st, bc), p.obj.size), 'post', 'allocation covers the capacity')
        r = o.ret
        e.oblige(st, r.obj is p.obj and eq(r.off, mul(e.U(st0, s0), I)), 'post', 'returns the new last item')
        if d0.obj is not None and p.obj is not d0.obj:
            own0 = fld(e, st0, m, 'own_memory').t
            e.oblige(st, (st.dead.get(d0.obj) is True) == (own0 != 0), 'post', 'old storage freed exactly when owned')
            e.oblige(st, ne(own.t, 0), 'post', 'grown storage is owned')
        if d0.obj is not None:
            if p.obj is d0.obj: e.oblige(st, eq(own.t, fld(e, st0, m, 'own_memory').t), 'post', 'ownership kept')
            j = z3.Int(uid('j')); st2 = st.copy(); st2.assume(And(j >= 0, lt(j, mul(e.U(st0, s0), I))))
            a = e.read(st2, p.obj, None, j, 'i8'); b_ = e.read(st_with(st2, st0), d0.obj, None, j, 'i8')
            e.oblige(st2, same_int(e, st2, a, b_), 'post', 'earlier items kept', assume=False)


ALL = [Alloc, Reserve, New, Free, Release, Resize, Clear, Wrap, Copy, Copy0, PushBack]
CONTRACTS = {c.name: c() for c in ALL}
OWN = list(CONTRACTS)
CONTRACTS.update(mb.CONTRACTS)
