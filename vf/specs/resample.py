"""resampling of images (nx_image.c) under contract."""
import z3
from fractions import Fraction
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand
from ..loops import *
from ..alg import div
from .image import *
from . import pixels as px_
from . import filters as fl_
from .pixels import PixelOp, px, toreal, trunc, f32c, DownF, DownU
from .filters import Dispatch

FILES = ['src/nx_image.c', 'src/nx_mem_block.c', 'src/nx_alloc.c', 'src/nx_filter.c']
CONTRACTS, OWN = dict(px_.CONTRACTS), []


def reg(cls, own=True):
    CONTRACTS[cls.name] = cls()
    if own: OWN.append(cls.name)
    return cls


OWN += ['nx_image_downsample_uc', 'nx_image_downsample_f32']
reg(type('Down', (Dispatch,), dict(name='nx_image_downsample', ops=(DownU, DownF))))


class Rows(PixelOp):
    """source rows addressed through a function of the row number"""
    def extra(s, b): s.R = z3.Function(uid('row'), z3.IntSort(), z3.IntSort()); s.rows = []
    def row(s, t, k):
        for r in [k] + list(s.rows): t.assume(s.R(zi(r)) == mul(r, s.src.rs.t))
        return s.R(zi(k))
    def P(s, t, y, x):
        ty = TY[s.src_dtype]; v = s.e.base_read(t, s.src.m.data, None, mul(TSIZE[ty], add(s.row(t, y), x)), ty)
        return s.e.U(t, v) if ty == 'i8' else v.t
    def pick(s, t, opts):
        """opts: (condition, value under it); exhaustive"""
        vals = []
        for c, f in opts:
            box = [0]
            guarded(s.e, t, c, lambda t2: (box.__setitem__(0, f(t2)), True)[1])
            vals.append((c, box[0]))
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]): r = ite(c, v, r)
        return r


@reg
class AaX(Rows):
    """(1 6 11 6 1)/25 around column 2x, mirrored at the start, the centre standing in for what lies past the end"""
    name = 'nx_image_downsample_aa_x_f32'
    minw = 1
    axis = 1
    def w(s): return idiv(s.src.w.t, 2) if s.axis else s.src.w.t
    def h(s): return s.src.h.t if s.axis else idiv(s.src.h.t, 2)
    def taps(s, t, y, x, ws):
        c = mul(2, x if s.axis else y); r = 0
        for d, w in ws:
            k = add(c, d) if d != 'c' else c
            v = s.P(t, y, k) if s.axis else s.P(t, k, x)
            r = add(r, mul(w, v))
        return r
    def val(s, t, y, x):
        i, n = (x, s.src.w.t) if s.axis else (y, s.src.h.t); c = mul(2, i)
        T = lambda *ws: (lambda t2: s.taps(t2, y, x, ws))
        return s.pick(t, [
            (And(eq(i, 0), eq(n, 2)), T((1, 12), (0, 13))),
            (And(eq(i, 0), lt(2, n)), T((2, 2), (1, 12), (0, 11))),
            (And(lt(0, i), le(n, add(c, 2))), T((-2, 1), (-1, 6), (1, 6), (0, 12))),
            (And(lt(0, i), lt(add(c, 2), n)), T((-2, 1), (2, 1), (-1, 6), (1, 6), (0, 11)))])
    def final(s, t, y, x):
        v = mul(toreal(s.val(t, y, x)), f32c(1 / 25))
        return v if s.dest_dtype == F32 else trunc(v)
    def loop_cands(s, e, L):
        s.rows = [0, 1, 2] + [add(ko, c) for (_, ko, _) in L.outer[-1:] for c in (0,)] if s.axis else [0, 1, 2]
        o = s.obj(L.st0)
        if o is None: return []
        rs = e.S(L.st0, F(e, L.st0, s.dest, 'row_stride'))
        out = []
        if s.axis: regs = [('y<k', lambda v, co: lt(co[0], v.k))] if not L.outer else [('y=outer k, 1<=x<=k', lambda v, co, ko=L.outer[-1][1]: And(eq(co[0], ko), le(1, co[1]), le(co[1], v.k)))]
        else: regs = [('x<k', lambda v, co: lt(co[1], v.k))] if not L.outer else [('x=outer k, 1<=y<=k', lambda v, co, ko=L.outer[-1][1]: And(eq(co[1], ko), le(1, co[0]), le(co[0], v.k)))]
        return [c for c in grid_cands(e, L, o, TY[s.dest_dtype], (s.h(), s.w()), s.enc(rs), s.fin, regions=regs) if any(r[0] in c.name for r in regs)]


reg(type('AaXU', (AaX,), dict(name='nx_image_downsample_aa_x_uc', src_dtype=UC, dest_dtype=UC)))
reg(type('AaYF', (AaX,), dict(name='nx_image_downsample_aa_y_f32', axis=0, minw=0, minh=1)))
reg(type('AaYU', (AaX,), dict(name='nx_image_downsample_aa_y_uc', axis=0, minw=0, minh=1, src_dtype=UC, dest_dtype=UC)))
for ax in 'xy':
    reg(type('Aa' + ax, (Dispatch,), dict(name='nx_image_downsample_aa_' + ax, ops=tuple(type(CONTRACTS['nx_image_downsample_aa_%s_%s' % (ax, d)]) for d in ('uc', 'f32')))))


@reg
class UpF(Rows):
    """even pixels are copies; odd ones the mean of the two or four neighbours, the last one repeated"""
    name = 'nx_image_upsample_f32'
    minw = minh = 1
    def pre(s, src): return And(le(mul(2, src.w.t), IMAX), le(mul(2, src.h.t), IMAX), le(mul(4, mul(src.w.t, src.h.t)), IMAX))
    def w(s): return mul(2, s.src.w.t)
    def h(s): return mul(2, s.src.h.t)
    def val(s, t, r, a, c, b):
        w, h = s.src.w.t, s.src.h.t; dv = div if s.src_dtype == F32 else idiv
        dn, rt = lt(r, sub(h, 1)), lt(c, sub(w, 1)); P = s.P; A, Bb = eq(a, 1), eq(b, 1)
        two = lambda t2, p, q: dv(add(p, q), 2)
        D = lambda t2: P(t2, add(r, 1), c); O = lambda t2: P(t2, r, c); Rt = lambda t2: P(t2, r, add(c, 1)); DR = lambda t2: P(t2, add(r, 1), add(c, 1))
        below, right = And(A, dn), And(Bb, rt)
        return s.pick(t, [
            (And(below, right), lambda t2: dv(add(add(O(t2), Rt(t2)), add(D(t2), DR(t2))), 4)),
            (And(below, Not(right)), lambda t2: dv(add(O(t2), D(t2)), 2)),
            (And(Not(below), right), lambda t2: dv(add(O(t2), Rt(t2)), 2)),
            (And(Not(below), Not(right)), lambda t2: O(t2))])
    def fin(s, t, co): return s.val(t, *co)
    def enc4(s, rs): return lambda r, a, c, b: add(mul(add(mul(2, r), a), rs), add(mul(2, c), b))
    def dims(s): return (s.src.h.t, 2, s.src.w.t, 2)
    def loop_cands(s, e, L):
        s.rows = [sub(s.src.h.t, 1)] if not L.outer else [add(L.outer[-1][1], i) for i in (0, 1)]
        o = s.obj(L.st0)
        if o is None: return []
        rs = e.S(L.st0, F(e, L.st0, s.dest, 'row_stride')); hm = sub(s.src.h.t, 1)
        if L.outer: regs = [('r=outer k, c<k', lambda v, co, ko=L.outer[-1][1]: And(eq(co[0], ko), lt(co[2], v.k)))]
        else: regs = [('r<k', lambda v, co: lt(co[0], v.k)), ('r=h-1, c<k', lambda v, co: And(eq(co[0], hm), lt(co[2], v.k)))]
        return [c for c in grid_cands(e, L, o, TY[s.dest_dtype], s.dims(), s.enc4(rs), s.fin, regions=regs) if any(' with %s done' % r[0] in c.name for r in regs)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        for f, v in (('width', s.w()), ('height', s.h()), ('type', s.dest_type), ('dtype', s.dest_dtype), ('n_channels', 1)):
            e.oblige(st, eq(e.S(st, F(e, st, s.dest, f)), v), 'post', 'result ' + f)
        rs = e.S(st, F(e, st, s.dest, 'row_stride')); e.oblige(st, le(s.w(), rs), 'post', 'result stride')
        ob = s.obj(st); ty = TY[s.dest_dtype]
        if ob is None: e.oblige(st, False, 'post', 'result has no pixels'); return
        for a in (0, 1):
            for b in (0, 1):
                r, c = z3.Ints(uid('r') + ' ' + uid('c')); t = st.copy(); co = (r, a, c, b)
                t.assume(And(r >= 0, lt(r, s.src.h.t), c >= 0, lt(c, s.src.w.t))); t.coords.append(co)
                cur = e.read(t, ob, None, mul(TSIZE[ty], s.enc4(rs)(*co)), ty)
                e.oblige(t, s.eqv(t, cur, s.fin(t, co)), 'post', 'pixel (2c+%d, 2r+%d) for every c, r' % (b, a))


reg(type('UpU', (UpF,), dict(name='nx_image_upsample_uc', src_dtype=UC, dest_dtype=UC)))
reg(type('Up', (Dispatch,), dict(name='nx_image_upsample', ops=(type(CONTRACTS['nx_image_upsample_uc']), UpF))))


class Opaque(PixelOp):
    """the value of a pixel as a function V(y, x) whose definition `value` is instantiated where the loops compute it"""
    def extra(s, b): s.V = z3.Function(uid('value'), z3.IntSort(), z3.IntSort(), z3.RealSort() if s.dest_dtype == F32 else z3.IntSort()); s.pts = []; s.more(b)
    def more(s, b): pass
    def final(s, t, y, x):
        for (a, b) in s.pts:
            d = And(le(0, a), lt(a, s.h()), le(0, b), lt(b, s.cols(s.w())))
            t.assume(guarded(s.e, t, d, lambda t2: s.V(zi(a), zi(b)) == s.value(t2, a, b)))
        return s.V(zi(y), zi(x))
    def loop_cands(s, e, L):
        o = s.obj(L.st0); s.pts = []
        if o is None: return []
        rs = e.S(L.st0, F(e, L.st0, s.dest, 'row_stride'))
        def at(v, pts, c): s.pts = pts; return c
        if L.outer:
            ko = L.outer[-1][1]; regs = [('y=outer k, x<k', lambda v, co: at(v, [(ko, v.k), (ko, sub(v.k, 1))], And(eq(co[0], ko), lt(co[1], v.k))))]
        else: regs = [('y<k', lambda v, co: at(v, [], lt(co[0], v.k)))]
        return [c for c in grid_cands(e, L, o, TY[s.dest_dtype], (s.h(), s.cols(s.w())), s.enc(rs), s.fin, regions=regs) if any(' with %s done' % r[0] in c.name for r in regs)]


@reg
class ScaleF(Opaque):
    """bilinear interpolation at (x/scale, y/scale), the last row and column repeated"""
    name = 'nx_image_scale_f32'
    named_trunc = True
    def more(s, b):
        s.sc = b.real('scale'); b.st.assume(zr(s.sc.t) > 0); s.W, s.H = s.e.tr(b.st, toreal(s.src.w.t) * s.sc.t), s.e.tr(b.st, toreal(s.src.h.t) * s.sc.t)
    def pre(s, src): return And(toreal(src.w.t) * s.sc.t <= IMAX, toreal(src.h.t) * s.sc.t <= IMAX, le(mul(s.W, s.H), IMAX))
    def args(s): return [PV(s.dest, 0), PV(s.src, 0), s.sc]
    def w(s): return s.W
    def h(s): return s.H
    def loop_cands(s, e, L):
        inv = div(1, s.sc.t); m, n = (s.W, s.src.w.t) if L.outer else (s.H, s.src.h.t)
        def inside(v):
            i = e.tr(v.st, mul(toreal(v.k), inv)); v.st.assume(zr(inv) * s.sc.t == 1)
            return Implies(And(le(0, v.k), lt(v.k, m)), And(le(0, i), lt(i, n)))
        return [Cand('the sample position is inside the source', inside, strong=True)] + Opaque.loop_cands(s, e, L)
    def value(s, t, y, x):
        inv = div(1, s.sc.t); yp, xp = mul(toreal(y), inv), mul(toreal(x), inv); yi, xi = s.e.tr(t, yp), s.e.tr(t, xp); dy, dx = sub(yp, toreal(yi)), sub(xp, toreal(xi))
        sy, sx = ite(lt(add(yi, 1), s.src.h.t), s.src.rs.t, 0), ite(lt(add(xi, 1), s.src.w.t), 1, 0); o = add(mul(yi, s.src.rs.t), xi); ty = TY[s.src_dtype]
        def p(a, b):
            v = s.e.base_read(t, s.src.m.data, None, mul(TSIZE[ty], add(add(o, a), b)), ty); return toreal(s.e.U(t, v)) if ty == 'i8' else v.t
        v = add(mul(add(mul(p(0, 0), sub(1, dx)), mul(p(0, sx), dx)), sub(1, dy)), mul(add(mul(p(sy, 0), sub(1, dx)), mul(p(sy, sx), dx)), dy))
        n = v if s.dest_dtype == F32 else s.e.tr(t, v)
        return v if s.dest_dtype == F32 else ite(lt(n, 0), 0, ite(lt(255, n), 255, n))


reg(type('ScaleU', (ScaleF,), dict(name='nx_image_scale_uc', src_dtype=UC, dest_dtype=UC)))
reg(type('Scale', (Dispatch,), dict(name='nx_image_scale', ops=(type(CONTRACTS['nx_image_scale_uc']), ScaleF))))
