"""nx_image.c: the container (construction, sizing, copying, wrapping, release) under contract.
Well-formed image: n_channels and element size follow type and dtype, row_stride >= n_channels*width,
data and mem->ptr are the same pointer, mem->size is row_stride*height elements."""
from ..sym import *
from ..contract import *
from ..engine import Out
from . import mem_block as mb

FILES = ['src/nx_image.c', 'src/nx_mem_block.c', 'src/nx_alloc.c']
H = 'virg/nexus/nx_image.h'
GRAY, RGBA, UC, F32 = 0, 1, 0, 1
IMAX = (1 << 31) - 1
FIELDS = {'width': 'i32', 'height': 'i32', 'type': 'i32', 'dtype': 'i32', 'n_channels': 'i32', 'mem': 'ptr', 'data': 'ptr', 'row_stride': 'i32'}
TY = {UC: 'i8', F32: 'f32'}
CONTRACTS, OWN = dict(mb.CONTRACTS), []


def reg(cls, own=True):
    CONTRACTS[cls.name] = cls()
    if own: OWN.append(cls.name)
    return cls


def nch(t): return 4 if t == RGBA else 1
def bpc(d): return 4 if d == F32 else 1


def mk_img(b, name, shape, type=None, dtype=None, minw=0, minh=0, ro=False, compact=False, maxd=1 << 16):
    """an arbitrary well-formed image; shape: empty | owned | wrapped. type/dtype None: any"""
    m = mb.mk_block(b, name + '.mem', 'empty' if shape == 'empty' else shape)
    if shape == 'empty':
        w = h = rs = IV(32, 0); t, d, n = IV(32, GRAY), IV(32, UC), IV(32, 1)
    else:
        sz, cap = m.cells[m.fo['size'][0]][1], m.cells[m.fo['capacity'][0]][1]
        w, h, rs = b.int(name + '.width', 32, minw, IMAX), b.int(name + '.height', 32, minh, IMAX), b.int(name + '.row_stride', 32, 0, IMAX)
        t = IV(32, type) if type is not None else b.int(name + '.type', 32, 0, 1)
        d = IV(32, dtype) if dtype is not None else b.int(name + '.dtype', 32, 0, 1)
        n = IV(32, ite(eq(t.t, RGBA), 4, 1), 1, 4)
        area = mul(rs.t, h.t)
        if type is not None: b.st.assume(le(mul(nch(type), w.t), rs.t))
        else: b.st.assume(And(le(w.t, rs.t), Implies(eq(t.t, RGBA), le(mul(4, w.t), rs.t))))
        b.st.assume(And(le(area, IMAX), le(0, area)))
        if dtype is not None: b.st.assume(eq(sz.t, mul(bpc(dtype), area)))
        else: b.st.assume(And(Implies(eq(d.t, UC), eq(sz.t, area)), Implies(eq(d.t, F32), eq(sz.t, mul(4, area)))))
        if dtype is not None and m.data is not None: m.data.layout = ('arr', 'i8')
        if ro: m.data.ro = True
    o = b.struct(name, H, 'struct NXImage', {'width': ('i32', w), 'height': ('i32', h), 'type': ('i32', t), 'dtype': ('i32', d), 'n_channels': ('i32', n),
                                            'mem': ('ptr', PV(m, 0)), 'data': ('ptr', PV(m.data, 0) if m.data is not None else NULL), 'row_stride': ('i32', rs)})
    o.w, o.h, o.rs, o.m, o.t, o.d = w, h, rs, m, t, d
    return o


def ensure(o):
    if not hasattr(o, 'fo'):
        lay = llir_offsets(H, 'struct NXImage', list(FIELDS))
        o.fo = {f: (lay[f][0], ty) for f, ty in FIELDS.items()}
        if o.layout is None: o.layout = ('struct', [(lay[f][0], ty, f) for f, ty in FIELDS.items()])
    return o


def F(e, st, o, f): return fld(e, st, ensure(o), f)
def size_of(st_img): return llir_offsets(H, 'struct NXImage', list(FIELDS))[''][1]


def set_shape(e, st, o, w, h, t, d, n, rs, ptr=None):
    ensure(o)
    for f, v in (('width', w), ('height', h), ('type', t), ('dtype', d), ('n_channels', n), ('row_stride', rs)): setf(e, st, o, f, v)
    if ptr is not None: setf(e, st, o, 'data', ptr)


def known(e, st, v, vals):
    """concrete value of an enumeration argument"""
    t = e.canon(st, v) if not isc(v.t) else v.t
    if isc(t): return t
    for x in vals:
        d = e.decide(st, eq(t, x))
        if d is True: return x
        if d is None: raise ForkOn(eq(t, x))
    raise Unsupported('enumeration value out of range')


class Img(Contract):
    pass


@reg
class Alloc(Img):
    """a new image is 0 x 0, grayscale, unsigned char, without storage"""
    name = 'nx_image_alloc'
    def setup(s, e, case):
        b = B(e); return b.st, [], b.aux()
    def spec(s, e, st, args):
        o = fresh_obj('image', size_of(None))
        (st, p), = mb.Alloc().spec(e, st, [])
        z = IV(32, 0)
        set_shape(e, st, o, z, z, IV(32, GRAY), IV(32, UC), IV(32, 1), z, NULL); setf(e, st, o, 'mem', p)
        return [(st, PV(o, 0))]


def spec_resize(e, st, img, w, h, stride, t, d):
    """storage for max(stride, channels*width)*height elements; contents unspecified when the storage is replaced"""
    t, d = known(e, st, t, (GRAY, RGBA)), known(e, st, d, (UC, F32))
    ensure(img)
    m = mb.ensure_fo(F(e, st, img, 'mem').obj); mb.own_known(e, st, m)
    W, Hh, S = e.S(st, w), e.S(st, h), e.S(st, stride)
    e.oblige(st, And(le(0, W), le(0, Hh)), 'pre', 'image dimensions are not negative')
    e.oblige(st, le(mul(nch(t), W), IMAX), 'pre', 'a row fits an int')
    out = []
    for wide, s1 in branch(e, st, lt(mul(nch(t), W), S)):
        rs = S if wide else mul(nch(t), W)
        e.oblige(s1, le(mul(rs, Hh), IMAX), 'pre', 'the image fits an int')
        n = mul(mul(rs, Hh), bpc(d))
        cap, ptr, own = (fld(e, s1, m, f) for f in ('capacity', 'ptr', 'own_memory'))
        for grow, s2 in branch(e, s1, lt(cap.t, n)):
            if grow:
                dat = fresh_obj('pixels', n)
                if ptr.obj is not None and isc(own.t) and own.t != 0: s2.dead[ptr.obj] = True
                ptr2 = PV(dat, 0)
                setf(e, s2, m, 'ptr', ptr2); setf(e, s2, m, 'capacity', IV(64, n, 0, 4 * IMAX)); setf(e, s2, m, 'own_memory', IV(32, 1))
            else: ptr2 = ptr
            setf(e, s2, m, 'size', IV(64, n, 0, 4 * IMAX))
            set_shape(e, s2, img, IV(32, W, 0, IMAX), IV(32, Hh, 0, IMAX), IV(32, t), IV(32, d), IV(32, nch(t)), IV(32, rs, 0, IMAX), ptr2)
            out.append((s2, None))
    return out


TD = [(GRAY, UC), (GRAY, F32), (RGBA, UC), (RGBA, F32)]
SHAPES = ('empty', 'owned', 'wrapped')


@reg
class Resize(Img):
    name = 'nx_image_resize'
    cases = tuple('%s/%d%d' % (a, t, d) for a in SHAPES for t, d in TD)
    def setup(s, e, case):
        b = B(e); sh, td = case.split('/'); t, d = int(td[0]), int(td[1])
        im = mk_img(b, 'img', sh)
        w, h, rs = b.int('width', 32, 0, IMAX), b.int('height', 32, 0, IMAX), b.int('row_stride', 32, -1, IMAX)
        b.st.assume(And(le(mul(nch(t), w.t), IMAX), le(mul(w.t, mul(nch(t), h.t)), IMAX), le(mul(rs.t, h.t), IMAX)))
        return b.st, [PV(im, 0), w, h, rs, IV(32, t), IV(32, d)], b.aux()
    def spec(s, e, st, args):
        return spec_resize(e, st, args[0].obj, args[1], args[2], args[3], args[4], args[5])


@reg
class ResizeLike(Img):
    name = 'nx_image_resize_like'
    cases = tuple('%s/%s' % (a, c) for a in SHAPES for c in SHAPES)
    def setup(s, e, case):
        b = B(e); x, y = case.split('/')
        im, sr = mk_img(b, 'img', x), mk_img(b, 'src', y)
        return b.st, [PV(im, 0), PV(sr, 0)], b.aux()
    def spec(s, e, st, args):
        sr = args[1].obj; out = []
        for x in fork_enum(e, st, F(e, st, sr, 'type'), F(e, st, sr, 'dtype')):
            t, d = F(e, x, sr, 'type'), F(e, x, sr, 'dtype')
            out += spec_resize(e, x, args[0].obj, F(e, x, sr, 'width'), F(e, x, sr, 'height'), IV(32, -1), IV(32, known(e, x, t, (0, 1))), IV(32, known(e, x, d, (0, 1))))
        return out


def fork_enum(e, st, *vs):
    sts = [st]
    for v in vs:
        n = []
        for s in sts:
            for _, s2 in branch(e, s, eq(v.t, 0)): n.append(s2)
        sts = n
    return sts


class NewBase(Img):
    def dims(s, b, k):
        w, h = b.int('width', 32, 0, IMAX), b.int('height', 32, 0, IMAX)
        b.st.assume(And(le(mul(k, w.t), IMAX), le(mul(w.t, mul(k, h.t)), IMAX)))
        return w, h
    def mk(s, e, st, w, h, t, d):
        (st, p), = CONTRACTS['nx_image_alloc'].spec(e, st, [])
        return [(x, p) for x, _ in spec_resize(e, st, p.obj, w, h, IV(32, -1), t, d)]


@reg
class New(NewBase):
    name = 'nx_image_new'
    cases = tuple('%d%d' % td for td in TD)
    def setup(s, e, case):
        b = B(e); t, d = int(case[0]), int(case[1]); w, h = s.dims(b, nch(t))
        return b.st, [w, h, IV(32, t), IV(32, d)], b.aux()
    def spec(s, e, st, args): return s.mk(e, st, *args)


def new_type(nm, t):
    class N(NewBase):
        name = nm; cases = ('0', '1')
        def setup(s, e, case):
            b = B(e); w, h = s.dims(b, nch(t)); return b.st, [w, h, IV(32, int(case))], b.aux()
        def spec(s, e, st, args): return s.mk(e, st, args[0], args[1], IV(32, t), args[2])
    reg(N)


def new_fixed(nm, t, d):
    class N(NewBase):
        name = nm
        def setup(s, e, case):
            b = B(e); w, h = s.dims(b, nch(t)); return b.st, [w, h], b.aux()
        def spec(s, e, st, args): return s.mk(e, st, args[0], args[1], IV(32, t), IV(32, d))
    reg(N)


new_type('nx_image_new_gray', GRAY); new_type('nx_image_new_rgba', RGBA)
new_fixed('nx_image_new_gray_uc', GRAY, UC); new_fixed('nx_image_new_rgba_uc', RGBA, UC)
new_fixed('nx_image_new_gray_f32', GRAY, F32); new_fixed('nx_image_new_rgba_f32', RGBA, F32)


@reg
class NewLike(NewBase):
    name = 'nx_image_new_like'
    cases = SHAPES
    def setup(s, e, case):
        b = B(e); sr = mk_img(b, 'src', case); return b.st, [PV(sr, 0)], b.aux()
    def spec(s, e, st, args):
        sr = args[0].obj; out = []
        for x in fork_enum(e, st, F(e, st, sr, 'type'), F(e, st, sr, 'dtype')):
            out += s.mk(e, x, F(e, x, sr, 'width'), F(e, x, sr, 'height'), IV(32, known(e, x, F(e, x, sr, 'type'), (0, 1))), IV(32, known(e, x, F(e, x, sr, 'dtype'), (0, 1))))
        return out


@reg
class Free(Img):
    """the image, its block and owned storage are freed; wrapped storage is not"""
    name = 'nx_image_free'
    cases = ('null',) + SHAPES
    def setup(s, e, case):
        b = B(e); return b.st, [NULL if case == 'null' else PV(mk_img(b, 'img', case), 0)], b.aux()
    def spec(s, e, st, args):
        o = args[0].obj
        if o is None: return [(st, None)]
        (st, _), = mb.Free().spec(e, st, [F(e, st, o, 'mem')])
        st.dead[o] = True
        return [(st, None)]


@reg
class Release(Img):
    name = 'nx_image_release'
    cases = SHAPES
    def setup(s, e, case):
        b = B(e); return b.st, [PV(mk_img(b, 'img', case), 0)], b.aux()
    def spec(s, e, st, args):
        o = args[0].obj; z = IV(32, 0)
        (st, _), = mb.Release().spec(e, st, [F(e, st, o, 'mem')])
        set_shape(e, st, o, z, z, IV(32, GRAY), IV(32, UC), IV(32, 1), z, NULL)
        return [(st, None)]


def spec_copy(e, st, d, sr):
    out = []
    for x, p in mb.Copy().spec(e, st, [F(e, st, d, 'mem'), F(e, st, sr, 'mem')]):
        set_shape(e, x, d, *[F(e, x, sr, f) for f in ('width', 'height', 'type', 'dtype', 'n_channels', 'row_stride')], p)
        out.append((x, None))
    return out


@reg
class Copy(Img):
    """same shape and stride, a deep copy of every stored byte"""
    name = 'nx_image_copy'
    cases = tuple('%s/%s' % (a, c) for a in SHAPES for c in SHAPES)
    def setup(s, e, case):
        b = B(e); x, y = case.split('/'); d, sr = mk_img(b, 'dest', x), mk_img(b, 'src', y)
        return b.st, [PV(d, 0), PV(sr, 0)], b.aux()
    def spec(s, e, st, args): return spec_copy(e, st, args[0].obj, args[1].obj)


@reg
class Copy0(Img):
    name = 'nx_image_copy0'
    cases = SHAPES
    def setup(s, e, case):
        b = B(e); return b.st, [PV(mk_img(b, 'img', case), 0)], b.aux()
    def spec(s, e, st, args):
        (st, p), = CONTRACTS['nx_image_alloc'].spec(e, st, [])
        return [(x, p) for x, _ in spec_copy(e, st, p.obj, args[0].obj)]


@reg
class SetZero(Img):
    name = 'nx_image_set_zero'
    cases = SHAPES
    def setup(s, e, case):
        b = B(e); return b.st, [PV(mk_img(b, 'img', case), 0)], b.aux()
    def spec(s, e, st, args): return mb.SetZero().spec(e, st, [F(e, st, args[0].obj, 'mem')])


@reg
class Wrap(Img):
    """the image adopts the caller's storage (and ownership when asked), releasing its own"""
    name = 'nx_image_wrap'
    cases = tuple('%s/%d%d' % (a, t, d) for a in SHAPES for t, d in TD)
    def setup(s, e, case):
        b = B(e); sh, td = case.split('/'); t, d = int(td[0]), int(td[1]); im = mk_img(b, 'img', sh)
        w, h, rs = b.int('width', 32, 0, IMAX), b.int('height', 32, 0, IMAX), b.int('row_stride', 32, 0, IMAX)
        b.st.assume(And(le(mul(nch(t), w.t), rs.t), le(mul(rs.t, h.t), IMAX), le(0, mul(rs.t, h.t))))
        dat = b.array('pixels', 'i8', mul(bpc(d), mul(rs.t, h.t)))
        return b.st, [PV(im, 0), PV(dat, 0), w, h, rs, IV(32, t), IV(32, d), b.int('own', 32)], b.aux()
    def spec(s, e, st, args):
        o, p, w, h, rs, t, d, own = args[0].obj, *args[1:]
        n = mul(mul(e.S(st, rs), e.S(st, h)), bpc(known(e, st, d, (0, 1)))); sz = IV(64, n, 0, 4 * IMAX)
        (st, _), = mb.Wrap().spec(e, st, [F(e, st, o, 'mem'), p, sz, sz, own])
        set_shape(e, st, o, w, h, t, d, IV(32, nch(known(e, st, t, (0, 1)))), rs, p)
        return [(st, None)]


@reg
class Swap(Img):
    name = 'nx_image_swap'
    cases = tuple('%s/%s' % (a, c) for a in SHAPES for c in SHAPES)
    def setup(s, e, case):
        b = B(e); x, y = case.split('/'); a, c = mk_img(b, 'img0', x), mk_img(b, 'img1', y)
        return b.st, [PV(a, 0), PV(c, 0)], b.aux()
    def spec(s, e, st, args):
        a, c = args[0].obj, args[1].obj; fs = ('width', 'height', 'type', 'dtype', 'n_channels', 'row_stride', 'data')
        va = {f: F(e, st, a, f) for f in fs}; vc = {f: F(e, st, c, f) for f in fs}
        (st, _), = mb.Swap().spec(e, st, [F(e, st, a, 'mem'), F(e, st, c, 'mem')])
        for f in fs: setf(e, st, a, f, vc[f]); setf(e, st, c, f, va[f])
        return [(st, None)]
