"""nx_image.c: per-pixel operations under contract (every pixel of every image, any stride)."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand
from ..loops import *
from ..alg import div
from .image import *
from . import image as im

FILES = ['src/nx_image.c', 'src/nx_mem_block.c', 'src/nx_alloc.c', 'src/nx_colorspace.c']
CONTRACTS, OWN = dict(im.CONTRACTS), []


def reg(cls, own=True):
    CONTRACTS[cls.name] = cls()
    if own: OWN.append(cls.name)
    return cls


def px(e, t, img, y, x, base=True):
    """element x of row y of an image, as at function entry"""
    ty = TY[img.d.t]; off = mul(TSIZE[ty], add(mul(y, img.rs.t), x))
    v = (e.base_read if base else e.read)(t, img.m.data, None, off, ty)
    return e.U(t, v) if ty == 'i8' else v.t


class PixelOp(Contract):
    """dest is resized to (w, h) and every element (y, x) becomes final(y, x)"""
    unroll = 'inner'
    src_dtype, dest_dtype, dest_type = F32, F32, GRAY
    minw = minh = 0
    cases = ('empty', 'owned')
    inplace = False
    def setup(s, e, case):
        b = B(e); s.e = e
        s.src = mk_img(b, 'src', 'wrapped', GRAY, s.src_dtype, minw=s.minw, minh=s.minh, ro=True)
        s.dest = mk_img(b, 'dest', case)
        s.extra(b)
        b.st.assume(s.pre(s.src))
        return b.st, s.args(), b.aux()
    def extra(s, b): pass
    def args(s): return [PV(s.dest, 0), PV(s.src, 0)]
    def pre(s, src): return True
    def w(s): return s.src.w.t
    def h(s): return s.src.h.t
    def p(s, t, y, x): return px(s.e, t, s.src, y, x)
    def obj(s, st): return F(s.e, st, s.dest, 'data').obj
    def enc(s, rs): return lambda y, x: add(mul(y, rs), x)
    def loop_cands(s, e, L):
        o = s.obj(L.st0)
        if o is None: return []
        rs = e.S(L.st0, F(e, L.st0, s.dest, 'row_stride'))
        ty = TY[s.dest_dtype]
        return grid_cands(e, L, o, ty, (s.h(), s.cols(s.w())), s.enc(rs), s.fin, regions=s.regions(L))
    def regions(s, L): return ()
    def cols(s, w): return mul(nch(s.dest_type), w)
    def fin(s, t, co):
        r = s.final(t, *co)
        return r
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        w, h = s.w(), s.h()
        for f, v in (('width', w), ('height', h), ('type', s.dest_type), ('dtype', s.dest_dtype), ('n_channels', nch(s.dest_type))):
            e.oblige(st, eq(e.S(st, F(e, st, s.dest, f)), v), 'post', 'result ' + f)
        rs = e.S(st, F(e, st, s.dest, 'row_stride'))
        e.oblige(st, le(mul(nch(s.dest_type), w), rs), 'post', 'result stride')
        ob = s.obj(st)
        y, x = z3.Ints(uid('y') + ' ' + uid('x')); st = st.copy()
        st.assume(And(y >= 0, lt(y, h), x >= 0, lt(x, s.cols(w)))); st.coords.append((y, x))
        if ob is None:
            e.oblige(st, False, 'post', 'result has no pixels'); return
        if not e.pr.feasible(st): return
        ty = TY[s.dest_dtype]
        cur = e.read(st, ob, None, mul(TSIZE[ty], add(mul(y, rs), x)), ty)
        e.oblige(st, s.eqv(st, cur, s.fin(st, (y, x))), 'post', 'pixel (x, y) for every x, y')
    def eqv(s, st, cur, want):
        if isinstance(cur, FV): return eq(zr(cur.t), zr(want.t if isinstance(want, FV) else want))
        return same_int(s.e, st, cur, want if isinstance(want, IV) else IV(8, want, 0, 255))


@reg
class UcToF32(PixelOp):
    name = 'nx_image_convert_uc_to_f32'
    src_dtype = UC
    def final(s, t, y, x): return z3.ToReal(zi(s.p(t, y, x))) / 255


@reg
class DownF(PixelOp):
    """the pixel at (x, y) is source pixel (2x, 2y)"""
    name = 'nx_image_downsample_f32'
    def w(s): return idiv(s.src.w.t, 2)
    def h(s): return idiv(s.src.h.t, 2)
    def final(s, t, y, x): return s.p(t, mul(2, y), mul(2, x))


@reg
class DownU(DownF):
    name = 'nx_image_downsample_uc'
    src_dtype = dest_dtype = UC


@reg
class F32ToUc(PixelOp):
    """255 times the value, truncated and clamped to 0..255"""
    name = 'nx_image_convert_f32_to_uc'
    dest_dtype = UC
    def final(s, t, y, x): return clamp8(s.e, t, mul(255, s.p(t, y, x)))


def clamp8(e, t, v):
    """the C conversion of a real to int, limited to 0..255"""
    n = trunc(v)
    return ite(lt(n, 0), 0, ite(lt(255, n), 255, n))


def trunc(v):
    if isc(v): return int(v)
    v = zr(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


class Subtract(PixelOp):
    name = 'nx_image_subtract'
    cases = ('empty/0', 'owned/0', 'empty/1', 'owned/1')
    def setup(s, e, case):
        b = B(e); s.e = e; sh, d = case.split('/'); d = int(d)
        s.src, s.src2 = mk_img(b, 'img0', 'wrapped', GRAY, d, ro=True), mk_img(b, 'img1', 'wrapped', GRAY, d, ro=True)
        s.dest = mk_img(b, 'difference', sh)
        b.st.assume(le(mul(Min(s.src.w.t, s.src2.w.t), Min(s.src.h.t, s.src2.h.t)), IMAX))
        return b.st, [PV(s.dest, 0), PV(s.src, 0), PV(s.src2, 0)], b.aux()
    def w(s): return Min(s.src.w.t, s.src2.w.t)
    def h(s): return Min(s.src.h.t, s.src2.h.t)
    def final(s, t, y, x): return sub(toreal(px(s.e, t, s.src, y, x)), toreal(px(s.e, t, s.src2, y, x)))


reg(Subtract)


def toreal(v): return v if isc(v) or z3.is_real(v) else z3.ToReal(v)


class InPlace(PixelOp):
    """the image keeps its shape; element (y, x, channel) becomes final(y, x, channel)"""
    cases = ('0', '1')
    def setup(s, e, case):
        b = B(e); s.e = e; s.ty = int(case); s.nc = nch(s.ty)
        s.dest = s.src = mk_img(b, 'img', 'wrapped', s.ty, s.src_dtype)
        s.dest_type = s.ty
        s.extra(b)
        return b.st, s.args(), b.aux()
    def loop_cands(s, e, L):
        ty = TY[s.src_dtype]
        return grid_cands(e, L, s.src.m.data, ty, (s.h(), s.w(), s.nc), lambda y, x, c: add(mul(y, s.src.rs.t), add(mul(s.nc, x), c)), lambda t, co: s.elem(t, co[0], add(mul(s.nc, co[1]), co[2])))
    def final(s, t, y, x): return s.elem(t, y, x)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        y, x, c = z3.Ints(' '.join(uid(n) for n in 'yxc')); st = st.copy()
        st.assume(And(y >= 0, lt(y, s.h()), x >= 0, lt(x, s.w()), c >= 0, c < s.nc)); st.coords.append((y, x, c))
        ty = TY[s.src_dtype]; xx = add(mul(s.nc, x), c)
        cur = e.read(st, s.src.m.data, None, mul(TSIZE[ty], add(mul(y, s.src.rs.t), xx)), ty)
        e.oblige(st, s.eqv(st, cur, s.elem(st, y, xx)), 'post', 'pixel (x, y), channel c for every x, y, c')


@reg
class AxpyF(InPlace):
    name = 'nx_image_axpy_f32'
    def extra(s, b): s.a, s.y = b.real('a'), b.real('y')
    def args(s): return [PV(s.src, 0), s.a, s.y]
    def elem(s, t, y, x): return add(mul(s.a.t, s.p(t, y, x)), s.y.t)


@reg
class AxpyU(AxpyF):
    name = 'nx_image_axpy_uc'
    src_dtype = dest_dtype = UC
    def elem(s, t, y, x): return clamp8(s.e, t, add(mul(s.a.t, toreal(s.p(t, y, x))), s.y.t))


class Raw(PixelOp):
    """(width, height, out, out_stride, in, in_stride) on bare pixel arrays; padding between rows is kept"""
    cases = ('',)
    oc, ic = 1, 4
    def setup(s, e, case):
        b = B(e); s.e = e
        s.W, s.Hh = b.int('width', 32, 0, IMAX), b.int('height', 32, 0, IMAX)
        s.os, s.is_ = b.int('out_stride', 32, 0, IMAX), b.int('in_stride', 32, 0, IMAX)
        b.st.assume(And(le(mul(s.oc, s.W.t), s.os.t), le(mul(s.ic, s.W.t), s.is_.t), le(mul(s.os.t, s.Hh.t), IMAX), le(mul(s.is_.t, s.Hh.t), IMAX)))
        ty = TY[s.src_dtype]
        s.o = b.array('out', ty, mul(s.os.t, s.Hh.t), kind='param'); s.i = b.array('in', ty, mul(s.is_.t, s.Hh.t), kind='param', ro=True)
        return b.st, [s.W, s.Hh, PV(s.o, 0), s.os, PV(s.i, 0), s.is_], b.aux()
    def p(s, t, y, x):
        ty = TY[s.src_dtype]; v = s.e.base_read(t, s.i, None, mul(TSIZE[ty], add(mul(y, s.is_.t), x)), ty)
        return s.e.U(t, v) if ty == 'i8' else v.t
    def grid(s):
        ty = TY[s.src_dtype]; e = s.e
        if s.oc == 1:
            dims = (s.Hh.t, s.os.t); enc = lambda y, x: add(mul(y, s.os.t), x)
            def fin(t, co):
                y, x = co; c = lt(x, s.W.t); keep = e.base_read(t, s.o, None, mul(TSIZE[ty], enc(y, x)), ty)
                box = []
                st = guarded(e, t, c, lambda t2: (box.append(s.final(t2, y, x)), True)[1])
                return ite(c, box[0], keep.t)
            return dims, enc, fin
        return (s.Hh.t, s.W.t, s.oc), lambda y, x, c: add(mul(y, s.os.t), add(mul(s.oc, x), c)), lambda t, co: s.final(t, *co)
    def loop_cands(s, e, L):
        dims, enc, fin = s.grid()
        return grid_cands(e, L, s.o, TY[s.src_dtype], dims, enc, fin)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        dims, enc, fin = s.grid(); co = tuple(z3.Int(uid(n)) for n in 'yxc'[:len(dims)]); st = st.copy()
        st.assume(And(*[And(c >= 0, lt(c, d)) for c, d in zip(co, dims)])); st.coords.append(co); ty = TY[s.src_dtype]
        e.oblige(st, s.eqv(st, e.read(st, s.o, None, mul(TSIZE[ty], enc(*co)), ty), fin(st, co)), 'post', 'pixel (x, y) for every x, y')


GRAYF = (0.3, 0.59, 0.11)


def f32c(x):
    import struct
    from fractions import Fraction
    f = Fraction(struct.unpack('f', struct.pack('f', x))[0])
    return z3.RealVal(f)


def gray(r, g, b): return toreal(r) * f32c(0.3) + toreal(g) * f32c(0.59) + toreal(b) * f32c(0.11)


@reg
class RgbaGrayU(Raw):
    name = 'nx_convert_rgba_to_gray_uc'
    src_dtype = dest_dtype = UC
    def final(s, t, y, x): return clamp8(s.e, t, gray(*[s.p(t, y, add(mul(4, x), c)) for c in range(3)]))


@reg
class RgbaGrayF(Raw):
    name = 'nx_convert_rgba_to_gray_f32'
    def final(s, t, y, x):
        g = gray(*[s.p(t, y, add(mul(4, x), c)) for c in range(3)])
        return ite(lt(g, 0), 0, ite(lt(1, g), 1, g))


@reg
class GrayRgbaU(Raw):
    name = 'nx_convert_gray_to_rgba_uc'
    src_dtype = dest_dtype = UC
    oc, ic = 4, 1; one = 255
    def final(s, t, y, x, c): return ite(lt(c, 3), s.p(t, y, x), s.one)


@reg
class GrayRgbaF(GrayRgbaU):
    name = 'nx_convert_gray_to_rgba_f32'
    src_dtype = dest_dtype = F32; one = 1


def interp(e, st, tab, off, n, v, c):
    """linear interpolation between rows k and k+1 of an n x 3 table at v*(n-1), 0 <= v <= 1"""
    pos = mul(toreal(sub(n, 1)), v); k = trunc(pos); a = sub(pos, toreal(k))
    rd = lambda i: e.read(st, tab, None, add(off, mul(4, add(mul(3, i), c))), 'f32').t
    return k, a, rd


@reg
class Interp(Contract):
    name = 'interpolate_color_map_data'
    def setup(s, e, case):
        b = B(e); n = b.int('n', 32, 2, 1 << 20); v = b.real('value'); b.st.assume(And(le(0, v.t), le(v.t, 1)))
        rgb = b.array('rgb', 'f32', 3, kind='param'); tab = b.array('table', 'f32', mul(3, n.t), kind='param', ro=True)
        return b.st, [PV(rgb, 0), v, n, PV(tab, 0)], b.aux()
    def spec(s, e, st, args):
        rgb, v, n, tab = args
        n = e.S(st, n)
        e.oblige(st, And(le(0, v.t), le(v.t, 1), le(2, n)), 'pre', 'the value lies in [0, 1]')
        out = []
        for last, x in branch(e, st, eq(trunc(mul(toreal(sub(n, 1)), v.t)), sub(n, 1))):
            vals = []
            for c in range(3):
                k, a, rd = interp(e, x, tab.obj, tab.off, n, v.t, c)
                e.valid(x, PV(tab.obj, add(tab.off, mul(12, k))), 12) if False else None
                vals.append(rd(k) if last else add(mul(sub(1, a), rd(k)), mul(a, rd(add(k, 1)))))
            for c in range(3): e.write(x, rgb.obj, rgb.idx, add(rgb.off, 4 * c), 'f32', FV(vals[c], False))
            out.append((x, None))
        return out


MAPS = {0: None, 1: 'viridis', 2: 'plasma', 3: 'magma', 4: 'cubehelix', 7: None}


@reg
class ColorMap(Contract):
    """the three channels are 255 times the interpolated map entry (255 times the value for gray and unknown maps), truncated"""
    name = 'nx_color_map_apply'
    cases = tuple(str(m) for m in MAPS)
    def setup(s, e, case):
        b = B(e); v = b.real('value'); b.st.assume(And(le(0, v.t), le(v.t, 1)))
        rgb = b.array('rgb', 'i8', 3, kind='param')
        return b.st, [PV(rgb, 0), PV(rgb, 1), PV(rgb, 2), v, IV(32, int(case))], b.aux()
    def table(s, e, name):
        for m in e.mods:
            for g in ('nx_color_map_data_' + name, '@nx_color_map_data_' + name):
                if g in m.globals: return PV(e.glob(g, m), 0)
        raise Unsupported('colour table %s' % name)
    def spec(s, e, st, args):
        ps, v, m = args[:3], args[3], args[4]
        m = known(e, st, m, list(MAPS)); nm_ = MAPS[m]
        e.oblige(st, And(le(0, v.t), le(v.t, 1)), 'pre', 'the value lies in [0, 1]')
        if nm_ is None:
            for p in ps: e.write(st, p.obj, p.idx, p.off, 'i8', IV(8, trunc(mul(255, v.t)), 0, 255))
            return [(st, None)]
        tab = s.table(e, nm_); n = tab.obj.size // 12; out = []
        for last, x in branch(e, st, eq(trunc(mul(n - 1, v.t)), n - 1)):
            vals = []
            for c in range(3):
                k, a, rd = interp(e, x, tab.obj, tab.off, n, v.t, c)
                vals.append(rd(k) if last else add(mul(sub(1, a), rd(k)), mul(a, rd(add(k, 1)))))
            for p, y in zip(ps, vals): e.write(x, p.obj, p.idx, p.off, 'i8', IV(8, trunc(mul(255, y)), 0, 255))
            out.append((x, None))
        return out


CM = z3.Function('colormap', z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.IntSort())


def cm_apply(self, e, st, args):
    """what callers see: three bytes that depend on the map, the channel and the value only"""
    v, m = args[3], e.S(st, args[4])
    e.oblige(st, And(le(0, v.t), le(v.t, 1)), 'pre', 'the value lies in [0, 1]')
    for c in range(3):
        t = CM(c, zi(m), zr(v.t)); st.assume(And(t >= 0, t <= 255)); p = args[c]
        e.write(st, p.obj, p.idx, p.off, 'i8', IV(8, t, 0, 255))
    return [(st, None)]


ColorMap.apply = cm_apply


@reg
class ApplyMap(PixelOp):
    """channels 0-2 are the map's bytes for the pixel, channel 3 is 255"""
    name = 'nx_image_apply_colormap'
    cases = ('empty/0', 'owned/0', 'empty/1', 'owned/1')
    dest_dtype, dest_type = UC, RGBA
    def setup(s, e, case):
        b = B(e); s.e = e; sh, d = case.split('/'); d = int(d)
        s.src = mk_img(b, 'gray', 'wrapped', GRAY, d); s.map = b.int('map', 32); s.dest = mk_img(b, 'color', sh)
        b.st.assume(And(le(mul(4, s.src.w.t), IMAX), le(mul(s.src.w.t, mul(4, s.src.h.t)), IMAX)))
        if d == F32: s.src.m.data.onread = [lambda st, idx, off, ty, t: [And(le(0, t), le(t, 1))] if ty == 'f32' else []]
        return b.st, [PV(s.dest, 0), PV(s.src, 0), s.map], b.aux()
    def grid(s, rs): return (s.h(), s.w(), 4), lambda y, x, c: add(mul(y, rs), add(mul(4, x), c))
    def fin(s, t, co):
        y, x, c = co; v = s.p(t, y, x)
        v = toreal(v) / 255 if s.src.d.t == UC else v
        r = CM(zi(c), zi(s.map.t), zr(v)); t.assume(Implies(lt(c, 3), And(r >= 0, r <= 255)))
        return ite(lt(c, 3), r, 255)
    def loop_cands(s, e, L):
        o = s.obj(L.st0)
        if o is None: return []
        dims, enc = s.grid(e.S(L.st0, F(e, L.st0, s.dest, 'row_stride')))
        return grid_cands(e, L, o, 'i8', dims, enc, s.fin)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        for f, v in (('width', s.w()), ('height', s.h()), ('type', RGBA), ('dtype', UC), ('n_channels', 4)): e.oblige(st, eq(e.S(st, F(e, st, s.dest, f)), v), 'post', 'result ' + f)
        dims, enc = s.grid(e.S(st, F(e, st, s.dest, 'row_stride'))); co = tuple(z3.Int(uid(n)) for n in 'yxc'); st = st.copy(); ob = s.obj(st)
        st.assume(And(*[And(c >= 0, lt(c, d)) for c, d in zip(co, dims)])); st.coords.append(co)
        if ob is None: e.oblige(st, False, 'post', 'result has no pixels'); return
        e.oblige(st, s.eqv(st, e.read(st, ob, None, enc(*co), 'i8'), s.fin(st, co)), 'post', 'pixel (x, y), channel c for every x, y, c')


@reg
class ConvertDtype(Contract):
    """same element type: a copy; otherwise the conversion of every pixel"""
    name = 'nx_image_convert_dtype'
    cases = ('owned/00', 'owned/01', 'owned/10', 'owned/11', 'empty/00', 'empty/10')
    unroll = 'inner'
    def setup(s, e, case):
        b = B(e); s.e = e; sh, dd = case.split('/'); s.sd, s.dd = int(dd[0]), int(dd[1])
        s.src = mk_img(b, 'src', 'wrapped', GRAY, s.sd, ro=True); s.dest = mk_img(b, 'dest', sh, None, s.dd if sh != 'empty' else None)
        s.op = None
        if s.sd != s.dd:
            s.op = (UcToF32 if s.sd == UC else F32ToUc)(); s.op.e, s.op.src, s.op.dest = e, s.src, s.dest
        return b.st, [PV(s.dest, 0), PV(s.src, 0)], b.aux()
    def loop_cands(s, e, L): return s.op.loop_cands(e, L) if s.op else []
    def post(s, e, st0, o, args, aux):
        if s.op: return s.op.post(e, st0, o, args, aux)
        s.spec2(e, st0, o, args, aux)
    def spec2(s, e, st0, o, args, aux):
        e.quiet += 1
        try: specs = spec_copy(e, st0.copy(), s.dest, s.src)
        finally: e.quiet -= 1
        for so, _ in specs:
            j = o.st.copy()
            for f in so.pc[len(st0.pc):]: j.assume(f)
            if e.pr.feasible(j): default_compare(e, st0, Out(o.kind, j, o.ret), Out('ret', so, None))


class Delegate(Contract):
    """dispatches to the operation `op` (made per case), whose obligations are checked here on the dispatching code"""
    unroll = 'inner'
    def loop_cands(s, e, L): return s.op.loop_cands(e, L)
    def post(s, e, st0, o, args, aux): return s.op.post(e, st0, o, args, aux)


@reg
class Axpy(Delegate):
    name = 'nx_image_axpy'
    cases = ('00', '10', '01', '11')
    def setup(s, e, case):
        s.op = (AxpyU, AxpyF)[int(case[1])]()
        return s.op.setup(e, case[0])
    def apply(s, e, st, args):
        """call-site form (float images): element v of the image becomes a*v + y; padding unspecified"""
        o = args[0].obj; a, y = args[1].t, args[2].t; d = F(e, st, o, 'data').obj
        w, h, rs = (e.S(st, F(e, st, o, f)) for f in ('width', 'height', 'row_stride'))
        nc = nch(known(e, st, F(e, st, o, 'type'), (0, 1)))
        if known(e, st, F(e, st, o, 'dtype'), (0, 1)) != F32 or d is None: raise Unsupported('call-site form')
        enc = lambda y_, x, c: mul(4, add(mul(y_, rs), add(mul(nc, x), c)))
        def formula(t, co, before):
            def g(t2):
                off = enc(*co)
                return eq(zr(e.read(t2, d, None, off, 'f32').t), add(mul(a, zr(e.read(st_with(t2, before), d, None, off, 'f32').t)), y))
            return guarded(e, t, And(*[And(le(0, c), lt(c, m)) for c, m in zip(co, (h, w, nc))]), g)
        e.havoc_q(st, d, 3, enc, formula)
        return [(st, None)]


@reg
class ConvertType(PixelOp):
    """gray becomes RGBA with equal channels and full alpha; the same type leaves the image as it is"""
    name = 'nx_image_convert_type'
    cases = ('owned/0', 'owned/1', 'wrapped/0', 'wrapped/1')
    dest_type = RGBA
    def setup(s, e, case):
        b = B(e); s.e = e; sh, d = case.split('/'); s.src_dtype = s.dest_dtype = int(d)
        s.src = s.dest = mk_img(b, 'img', sh, GRAY, int(d)); s.data0 = s.src.m.data
        b.st.assume(And(le(mul(4, s.src.w.t), IMAX), le(mul(s.src.w.t, mul(4, s.src.h.t)), IMAX)))
        return b.st, [PV(s.src, 0), IV(32, RGBA)], b.aux()
    def grid(s, rs): return (s.h(), s.w(), 4), lambda y, x, c: add(mul(y, rs), add(mul(4, x), c))
    def fin(s, t, co):
        y, x, c = co
        return ite(lt(c, 3), s.p(t, y, x), 255 if s.src_dtype == UC else 1)
    loop_cands = lambda s, e, L: [] if s.obj(L.st0) is None else (lambda g: grid_cands(e, L, s.obj(L.st0), TY[s.src_dtype], g[0], g[1], s.fin))(s.grid(e.S(L.st0, F(e, L.st0, s.dest, 'row_stride'))))
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        for f, v in (('width', s.w()), ('height', s.h()), ('type', RGBA), ('dtype', s.src_dtype), ('n_channels', 4)): e.oblige(st, eq(e.S(st, F(e, st, s.dest, f)), v), 'post', 'result ' + f)
        dims, enc = s.grid(e.S(st, F(e, st, s.dest, 'row_stride'))); co = tuple(z3.Int(uid(n)) for n in 'yxc'); st = st.copy(); ob = s.obj(st)
        st.assume(And(*[And(c >= 0, lt(c, d)) for c, d in zip(co, dims)])); st.coords.append(co)
        if ob is None: e.oblige(st, False, 'post', 'result has no pixels'); return
        ty = TY[s.src_dtype]
        e.oblige(st, s.eqv(st, e.read(st, ob, None, mul(TSIZE[ty], enc(*co)), ty), s.fin(st, co)), 'post', 'pixel (x, y), channel c for every x, y, c')


class Fold2:
    """R(y, x): fold of the elements before element x of row y, row by row, by its recursive definition"""
    def __init__(s, name, term, cols, zero, step):
        s.f = z3.Function(uid('fold.' + name), z3.IntSort(), z3.IntSort(), z3.RealSort())
        s.term, s.cols, s.zero, s.step = term, cols, zero, step
    def at(s, st, y, x):
        for d in (-1, 0, 1, 2, 3):
            i = zi(add(x, d)); yy = zi(y)
            key = ('fold', s.f.name(), yy.get_id(), z3.simplify(i).get_id())
            if key in st.inst: continue
            st.inst.add(key)
            dom = And(yy >= 0, i >= 0, lt(i, s.cols))
            if isc(dom) and not dom: continue
            st.assume(guarded(st.eng, st, dom, lambda t: s.f(yy, i + 1) == s.step(s.f(yy, i), zr(s.term(t, yy, i)))))
        st.assume(And(s.f(0, 0) == s.zero, Implies(zi(y) >= 0, s.f(zi(y) + 1, 0) == s.f(zi(y), zi(s.cols)))))
        return s.f(zi(y), zi(x))


FLT_MAX = z3.RealVal(int((2 - 2**-23) * 2**127))


@reg
class Normalize(InPlace):
    """every element v becomes (v - min)/(max - min), or v/(2*max|v|) + 1/2 when symmetric, clamped to [0, 1]; 0 when all are equal"""
    name = 'nx_image_normalize_to_zero_one'
    cases = ('0',)      # grayscale; the RGBA case exceeds the time budget and is left to the bounded harness
    def extra(s, b):
        s.sym = b.int('symmetric', 32)
        cols = mul(s.nc, s.src.w.t)
        s.mn = Fold2('min', s.p, cols, FLT_MAX, lambda a, v: z3.If(v < a, v, a))
        s.mx = Fold2('max', s.p, cols, -FLT_MAX, lambda a, v: z3.If(v > a, v, a))
    def args(s): return [PV(s.src, 0), s.sym]
    def elem(s, t, y, x):
        return s.clamp(s.scaled(t, y, x))
    def clamp(s, v): return z3.If(v < 0, z3.RealVal(0), z3.If(v > 1, z3.RealVal(1), v))
    def pick(s, t, c, a, b):
        d = s.e.decide(t, c)
        return a() if d is True else b() if d is False else z3.If(c, zr(a()), zr(b()))
    def scaled(s, t, y, x):
        mn, mx = s.mn.at(t, s.h(), 0), s.mx.at(t, s.h(), 0); v = zr(s.p(t, y, x))
        def sy():
            ab = lambda u: s.pick(t, u >= 0, lambda: u, lambda: -u)
            m = s.pick(t, ab(mn) > ab(mx), lambda: ab(mn), lambda: ab(mx))
            return add(div(v, mul(2, m)), z3.RealVal('0.5'))
        return s.pick(t, mx == mn, lambda: z3.RealVal(0), lambda: s.pick(t, s.sym.t != 0, sy, lambda: sub(div(v, mx - mn), div(mn, mx - mn))))
    def loop_cands(s, e, L):
        out = []
        ks = [k for (_, k, _) in L.outer]
        for a in reals(L):
            for w, R in (('least', s.mn), ('largest', s.mx)):
                if not ks: out.append(Cand('%s is the %s element of the rows so far' % (nm(a), w), lambda v, a=a, R=R: eq(v.get(a), R.at(v.st, v.k, 0))))
                else: out.append(Cand('%s is the %s element so far' % (nm(a), w), lambda v, a=a, R=R: eq(v.get(a), R.at(v.st, ks[0], mul(s.nc, v.k)))))
        ty = 'f32'; dims, enc = (s.h(), s.w(), s.nc), lambda y, x, c: add(mul(y, s.src.rs.t), add(mul(s.nc, x), c))
        if any(a[0] == 'phi' for a in reals(L)): return out
        def clamped(t, co): return s.clamp(zr(e.read(st_with(t, L.st0), s.src.m.data, None, mul(4, enc(*co)), 'f32').t))
        return out + grid_cands(e, L, s.src.m.data, ty, dims, enc, clamped)
