"""nx_filter.c and the derivative filters of nx_image.c under contract."""
import z3
from fractions import Fraction
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand
from ..loops import *
from ..alg import div
from .image import *
from . import pixels as px_
from .pixels import PixelOp, px, toreal, trunc

FILES = ['src/nx_image.c', 'src/nx_mem_block.c', 'src/nx_alloc.c', 'src/nx_filter.c']
CONTRACTS, OWN = dict(px_.CONTRACTS), []
NMAX = 1 << 28


def reg(cls, own=True):
    CONTRACTS[cls.name] = cls()
    if own: OWN.append(cls.name)
    return cls


def window_cands(e, L, obj, ty, starts, final, tag='', pre=None):
    """elements [start, start+k) have their final value, the others are as at loop entry"""
    n = TSIZE[ty]; out = []
    for w, s0 in starts:
        def f(v, co, s0=s0):
            j, = co
            def g(t):
                if pre: pre(t, v)
                cur = e.read(t, obj, None, mul(j, n), ty); ini = e.read(st_with(t, L.st0), obj, None, mul(j, n), ty)
                c = And(le(s0, j), lt(j, add(s0, v.k)))
                def gf(t2):
                    fin = final(t2, j)
                    return eq(zr(cur.t), zr(fin.t if isinstance(fin, FV) else fin))
                return And(guarded(e, t, c, gf), Implies(Not(c), same(e, t, cur, ini)))
            return guarded(e, v.st, And(le(0, j), le(add(mul(j, n), n), obj.size)), g)
        out.append(QCand('%s: elements from %s done%s, others as before' % (obj.name, w, tag), lambda v: obj, 1, n, f))
    return out


class Buf(Contract):
    unroll = 'inner'
    def elems(s, e, st, o, total, want, what):
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        j = z3.Int(uid('j')); st = st.copy(); st.assume(And(j >= 0, lt(j, total))); st.coords.append((j,))
        e.oblige(st, eq(zr(e.read(st, s.buf, None, mul(4, j), 'f32').t), zr(want(st, j))), 'post', what)


class CopyBuf(Buf):
    """the n values in the middle, n_border elements of the chosen border on both sides"""
    cases = ('0', '1', '2')
    dt, strided = UC, False
    def setup(s, e, case):
        b = B(e); s.e = e; s.mode = int(case)
        s.n, s.nb = b.int('n', 32, 2, NMAX), b.int('n_border', 32, 0, NMAX)
        s.stride = b.int('stride', 32, 1, NMAX) if s.strided else IV(32, 1)
        b.st.assume(le(mul(s.n.t, s.stride.t), IMAX)); s.M = z3.Function(uid('at'), z3.IntSort(), z3.IntSort())
        if s.mode == 2: b.st.assume(lt(s.nb.t, s.n.t))
        ty = TY[s.dt]
        s.buf = b.array('buffer', 'f32', add(s.n.t, mul(2, s.nb.t)), kind='param')
        s.src = b.array('data', ty, add(mul(sub(s.n.t, 1), s.stride.t), 1), kind='param', ro=True)
        return b.st, [s.n, PV(s.buf, 0), PV(s.src, 0)] + ([s.stride] if s.strided else []) + [s.nb, IV(32, s.mode)], b.aux()
    def pos(s, t, i):
        if not s.strided: return i
        t.assume(s.M(zi(i)) == mul(i, s.stride.t))
        return s.M(zi(i))
    def val(s, t, i):
        ty = TY[s.dt]; v = s.e.base_read(t, s.src, None, mul(TSIZE[ty], s.pos(t, i)), ty)
        return toreal(s.e.U(t, v)) if ty == 'i8' else v.t
    def want(s, t, j):
        e, n, nb = s.e, s.n.t, s.nb.t; i = sub(j, nb); box = {}
        left, right = lt(i, 0), le(n, i)
        def at(name, c, idx):
            guarded(e, t, c, lambda t2: (box.__setitem__(name, s.val(t2, idx)), True)[1])
            return box.get(name, 0)
        mid = at('m', And(Not(left), Not(right)), i)
        if s.mode == 0: l = r = 0
        elif s.mode == 1: l, r = at('l', left, 0), at('r', right, sub(n, 1))
        else: l, r = at('l', left, sub(0, i)), at('r', right, sub(mul(2, sub(n, 1)), i))
        return ite(left, l, ite(right, r, mid))
    def loop_cands(s, e, L):
        return window_cands(e, L, s.buf, 'f32', [('n_border', s.nb.t), ('0', 0), ('n_border+n', add(s.nb.t, s.n.t))], s.want, pre=lambda t, v: [s.pos(t, v.k), s.pos(t, sub(v.k, 1))])
    def post(s, e, st0, o, args, aux):
        s.elems(e, o.st, o, add(s.n.t, mul(2, s.nb.t)), s.want, 'buffer[j] for every j')


for nm_, dt_, str_ in (('nx_filter_copy_to_buffer1_uc', UC, False), ('nx_filter_copy_to_buffer_uc', UC, True), ('nx_filter_copy_to_buffer1', F32, False), ('nx_filter_copy_to_buffer', F32, True)):
    reg(type(nm_, (CopyBuf,), dict(name=nm_, dt=dt_, strided=str_)))


@reg
class ConvSym(Buf):
    """element i becomes kernel[0]*d[c] + sum over j of kernel[j]*(d[c-j] + d[c+j]), c = i + n_k - 1"""
    name = 'nx_convolve_sym'
    def setup(s, e, case):
        b = B(e); s.e = e
        s.n, s.nk = b.int('n', 32, 2, NMAX), b.int('n_k', 32, 2, NMAX)
        s.buf = b.array('data', 'f32', add(s.n.t, mul(2, sub(s.nk.t, 1))), kind='param'); s.ker = b.array('kernel', 'f32', s.nk.t, kind='param', ro=True)
        s.P = z3.Function(uid('conv'), z3.IntSort(), z3.IntSort(), z3.RealSort())
        return b.st, [s.n, PV(s.buf, 0), s.nk, PV(s.ker, 0)], b.aux()
    def d(s, t, i): return s.e.base_read(t, s.buf, None, mul(4, i), 'f32').t
    def k(s, t, i): return s.e.base_read(t, s.ker, None, mul(4, i), 'f32').t
    def part(s, st, i, j):
        """after the taps 1..j"""
        e = s.e; i = zi(i); c = add(i, sub(s.nk.t, 1))
        inr = And(i >= 0, lt(i, s.n.t))
        st.assume(guarded(e, st, inr, lambda t: s.P(i, 0) == mul(s.k(t, 0), s.d(t, c))))
        for q in (zi(j), zi(sub(j, 1))):
            if isc(unz(q)) and unz(q) < 0: continue
            q1 = q + 1
            st.assume(guarded(e, st, And(inr, q >= 0, lt(q1, s.nk.t)), lambda t: s.P(i, q1) == s.P(i, q) + mul(s.k(t, q1), add(s.d(t, sub(c, q1)), s.d(t, add(c, q1))))))
        return s.P(i, zi(j))
    def final(s, t, i): return s.part(t, i, sub(s.nk.t, 1))
    def loop_cands(s, e, L):
        out = []
        for (_, k0, _) in L.outer:
            for a in reals(L):
                if a[0] == 'phi': out.append(Cand('%s is the convolution up to the current tap' % nm(a), lambda v, a=a: eq(v.get(a), s.part(v.st, k0, v.k))))
        return out + window_cands(e, L, s.buf, 'f32', [('0', 0)], s.final)
    def post(s, e, st0, o, args, aux):
        st = o.st
        s.elems(e, st, o, s.n.t, s.final, 'data[i] for every i < n')


@reg
class ConvBox(Buf):
    """element i becomes the mean of elements i .. i+2r"""
    name = 'nx_convolve_box'
    def setup(s, e, case):
        b = B(e); s.e = e
        s.n, s.r = b.int('n', 32, 2, NMAX), b.int('n_r', 32, 1, NMAX)
        s.buf = b.array('data', 'f32', add(s.n.t, mul(2, s.r.t)), kind='param')
        s.S = Sum('window', lambda t, i: s.d(t, i))
        return b.st, [s.n, PV(s.buf, 0), s.r], b.aux()
    def d(s, t, i):
        box = [0]
        guarded(s.e, t, And(le(0, i), lt(i, add(s.n.t, mul(2, s.r.t)))), lambda t2: (box.__setitem__(0, s.e.base_read(t2, s.buf, None, mul(4, i), 'f32').t), True)[1])
        return box[0]
    def W(s, t, i): return sub(s.S.at(t, add(i, add(mul(2, s.r.t), 1))), s.S.at(t, i))
    def mean(s, t, i): return div(s.W(t, i), toreal(add(mul(2, s.r.t), 1)))
    def loop_cands(s, e, L):
        out = []
        for a in reals(L):
            out.append(Cand('%s is the sum of the first k+1 elements' % nm(a), lambda v, a=a: eq(v.get(a), s.S.at(v.st, add(v.k, 1)))))
            out.append(Cand('%s is the original element k' % nm(a), lambda v, a=a: eq(v.get(a), s.d(v.st, v.k))))
        def first(v, co):
            j, = co
            return guarded(e, v.st, And(le(0, j), lt(j, add(s.n.t, mul(2, s.r.t)))), lambda t: eq(e.read(t, s.buf, None, mul(4, j), 'f32').t, ite(eq(j, 0), s.S.at(t, add(v.k, 1)), s.d(t, j))))
        out.append(QCand('element 0 accumulates, others as given', lambda v: s.buf, 1, 4, first))
        def up(v, co):
            j, = co
            return guarded(e, v.st, And(le(0, j), lt(j, add(s.n.t, mul(2, s.r.t)))), lambda t: eq(e.read(t, s.buf, None, mul(4, j), 'f32').t, ite(le(j, v.k), s.W(t, j), s.d(t, j))))
        out.append(QCand('elements 0..k hold window sums, others as given', lambda v: s.buf, 1, 4, up))
        def means(t, j): return div(e.read(st_with(t, L.st0), s.buf, None, mul(4, j), 'f32').t, toreal(add(mul(2, s.r.t), 1)))
        return out + window_cands(e, L, s.buf, 'f32', [('0', 0)], means)
    def post(s, e, st0, o, args, aux):
        s.elems(e, o.st, o, s.n.t, s.mean, 'data[i] for every i < n')


@reg
class DerivX(PixelOp):
    """central differences, doubled one-sided differences at both ends"""
    name = 'nx_image_deriv_x_f32'
    minw = 2
    scale = 1
    axis = 1
    def extra(s, b): s.R = z3.Function(uid('row'), z3.IntSort(), z3.IntSort()); s.rows = []
    def loop_cands(s, e, L):
        if s.axis: return PixelOp.loop_cands(s, e, L)
        s.rows = [1, sub(s.h(), 1)] if not L.outer else []
        for (_, ko, _) in L.outer: s.rows += [add(ko, 1)]
        o = s.obj(L.st0); out = []
        if o is None: return []
        rs = e.S(L.st0, F(e, L.st0, s.dest, 'row_stride')); hm = sub(s.h(), 1)
        def g(part, tag, regions): return [c for c in grid_cands(e, L, o, 'f32', (s.h(), s.w()), s.enc(rs), lambda t, co: s.part(part, t, *co), tag=tag, regions=regions) if tag in c.name and any(r[0] in c.name for r in regions)]
        out += g('lo', ' (first row)', [('y=0, x<k', lambda v, co: And(eq(co[0], 0), lt(co[1], v.k)))])
        out += g('hi', ' (last row)', [('y=h-1, x<k', lambda v, co: And(eq(co[0], hm), lt(co[1], v.k)))])
        if L.outer: out += g('mi', ' (middle)', [('y=1+outer k, x<k', lambda v, co, ko=L.outer[-1][1]: And(eq(co[0], add(ko, 1)), lt(co[1], v.k)))])
        else: out += g('mi', ' (middle)', [('0<y<=k', lambda v, co: And(lt(0, co[0]), le(co[0], v.k)))])
        return out
    def part(s, which, t2, y, x):
        e = s.e; i, n = (x, s.w()) if s.axis else (y, s.h()); ty = TY[s.src_dtype]
        def row(k):
            """k*row_stride, as a function of k"""
            for r in [k] + [add(r, c) for r in s.rows for c in (-1, 0, 1)]: t2.assume(s.R(zi(r)) == mul(r, s.src.rs.t))
            return s.R(zi(k))
        def P(k):
            if s.axis: return toreal(px(e, t2, s.src, y, k))
            v = e.base_read(t2, s.src.m.data, None, mul(TSIZE[ty], add(row(k), x)), ty)
            return toreal(e.U(t2, v)) if ty == 'i8' else v.t
        r = mul(2, sub(P(1), P(0))) if which == 'lo' else mul(2, sub(P(sub(n, 1)), P(sub(n, 2)))) if which == 'hi' else sub(P(add(i, 1)), P(sub(i, 1)))
        return div(r, s.scale)
    def final(s, t, y, x):
        e = s.e; i, n = (x, s.w()) if s.axis else (y, s.h()); box = {}
        for w, c in (('lo', eq(i, 0)), ('hi', eq(i, sub(n, 1))), ('mi', And(lt(0, i), lt(i, sub(n, 1))))):
            guarded(e, t, c, lambda t2: (box.__setitem__(w, s.part(w, t2, y, x)), True)[1])
        g = lambda k: box.get(k, 0)
        return ite(eq(i, 0), g('lo'), ite(eq(i, sub(n, 1)), g('hi'), g('mi')))


reg(type('DerivXU', (DerivX,), dict(name='nx_image_deriv_x_uc', src_dtype=UC, scale=255)))
reg(type('DerivYF', (DerivX,), dict(name='nx_image_deriv_y_f32', axis=0, minw=0, minh=2)))
reg(type('DerivYU', (DerivX,), dict(name='nx_image_deriv_y_uc', axis=0, minw=0, minh=2, src_dtype=UC, scale=255)))


class Dispatch(Contract):
    """on the image's data type to op[dtype], called once with the same arguments (or its effect, where the code does not call it)"""
    unroll = 'inner'
    cases = ('0', '1')
    ops = ()
    def setup(s, e, case):
        s.op = s.ops[int(case)](); s.args_ = None
        r = s.op.setup(e, 'owned'); s.want = r[1]
        return r
    def loop_cands(s, e, L): return s.op.loop_cands(e, L)
    def intercept(s, e, st, name, args):
        if name not in [o.name for o in s.ops]: return None
        st.ghost['called'] = st.ghost.get('called', ()) + ((name, tuple(args)),)
        return [Out('ret', st, None)]
    def post(s, e, st0, o, args, aux):
        c = o.st.ghost.get('called')
        if not c: return s.op.post(e, st0, o, args, aux)
        ok = o.kind == 'ret' and len(c) == 1 and c[0][0] == s.op.name and len(c[0][1]) == len(s.want)
        if ok:
            for a, b in zip(c[0][1], s.want):
                if isinstance(b, PV): ok = And(ok, a.obj is b.obj and eq(a.off, b.off))
                else: ok = And(ok, eq(a.t, b.t))
        e.oblige(o.st, ok, 'post', 'the operation for the data type is applied to the same arguments, once')


reg(type('DerivXD', (Dispatch,), dict(name='nx_image_deriv_x', ops=(type(CONTRACTS['nx_image_deriv_x_uc']), DerivX))))
reg(type('DerivYD', (Dispatch,), dict(name='nx_image_deriv_y', ops=(type(CONTRACTS['nx_image_deriv_y_uc']), type(CONTRACTS['nx_image_deriv_y_f32'])))))


@reg
class KernelSize(Contract):
    """the least odd size of at least 3 that is at least trunc(2*factor*sigma + 1)"""
    name = 'nx_kernel_size_gaussian'
    def setup(s, e, case):
        b = B(e); s.e = e; s.x, s.f = b.real('sigma'), b.real('factor')
        b.st.assume(And(zr(s.x.t) > 0, zr(s.f.t) > 0, zr(s.x.t) * zr(s.f.t) <= 10 ** 8))
        return b.st, [s.x, s.f], b.aux()
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        n = e.S(o.st, o.ret); m = trunc(add(mul(2, mul(s.f.t, s.x.t)), 1))
        e.oblige(o.st, eq(n, ite(lt(m, 3), 3, ite(eq(m % 2, 0), m + 1, m))), 'post', 'size')


@reg
class KernelSym(Contract):
    """kernel[i] = g(i)/(g(0) + 2*sum of the others), g(i) = exp(-i*i/(2*sigma*sigma))"""
    name = 'nx_kernel_sym_gaussian'
    def setup(s, e, case):
        b = B(e); s.e = e; s.nk = b.int('n_k', 32, 2, NMAX); s.sg = b.real('sigma'); b.st.assume(zr(s.sg.t) > 0)
        s.ker = b.array('kernel', 'f32', s.nk.t, kind='param')
        s.G = z3.Function(uid('gauss'), z3.IntSort(), z3.RealSort()); s.ks = [0]
        s.S = Sum('weights', lambda t, i: ite(eq(i, 0), s.g(t, 0), mul(2, s.g(t, i))))
        return b.st, [s.nk, PV(s.ker, 0), s.sg], b.aux()
    def g(s, t, i):
        fn = s.e.fpuf.setdefault('exp', z3.Function('m.exp', z3.RealSort(), z3.RealSort()))
        for j in [i] + s.ks:
            x = toreal(j); t.assume(s.G(zi(j)) == fn(zr(div(mul(mul(Fraction(-1, 2), x), x), mul(s.sg.t, s.sg.t)))))
            t.assume(s.G(zi(j)) > 0)
        return s.G(zi(i))
    def total(s, t): return s.S.at(t, s.nk.t)
    def loop_cands(s, e, L):
        out = []
        for a in reals(L): out.append(Cand('%s is the weight so far' % nm(a), lambda v, a=a: eq(v.get(a), s.S.at(v.st, add(v.k, 1)))))
        def mk(c):
            def f(v, co):
                j, = co; s.ks = [0, v.k, add(v.k, 1)]
                return guarded(e, v.st, And(le(0, j), lt(j, s.nk.t)), lambda t: c(v, t, j, zr(e.read(t, s.ker, None, mul(4, j), 'f32').t)))
            return f
        out.append(QCand('kernel[0..k] are the values', lambda v: s.ker, 1, 4, mk(lambda v, t, j, x: Implies(le(j, v.k), eq(x, s.g(t, j))))))
        out.append(QCand('the first k are divided', lambda v: s.ker, 1, 4, mk(lambda v, t, j, x: eq(x, ite(lt(j, v.k), div(s.g(t, j), s.total(t)), s.g(t, j))))))
        return out
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        j = z3.Int(uid('j')); st = o.st.copy(); st.assume(And(j >= 0, lt(j, s.nk.t))); st.coords.append((j,))
        e.oblige(st, eq(zr(e.read(st, s.ker, None, mul(4, j), 'f32').t), div(s.g(st, j), s.total(st))), 'post', 'kernel[j] for every j')
