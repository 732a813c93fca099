"""Homographies, planar transforms, epipolar geometry and point matches under contract (real arithmetic)."""
import os, z3
from ..sym import *
from ..contract import *
from ..alg import *
from ..loops import *
from ..engine import Out, Cand, QCand
from . import linalg
from .linalg import SqrtAlg, dot, I3

FILES = [linalg.TU, 'src/nx_homography.c', 'src/nx_epipolar.c', 'src/nx_transform_2d.c', 'src/nx_point_match_2d_stats.c', 'src/nx_pinhole.c', 'src/nx_alloc.c']
CONTRACTS = dict(linalg.CONTRACTS)
OWN = []
PM = 'virg/nexus/nx_point_match_2d.h'


def reg(cls, key=None):
    CONTRACTS[key or cls.name] = cls(); OWN.append(key or cls.name); return cls


def alg(name_, sig_, f_, doc, retd=True, pre=None):
    d = dict(name=name_, sig=sig_, f=lambda s, A: f_(A), __doc__=doc, retd=retd)
    if pre: d['pre'] = lambda s, A: pre(A)
    return reg(type(name_, (Alg,), d))


def T(x, y): return [1, 0, 0, 0, 1, 0, x, y, 1]
def R2(c, s): return [c, s, 0, sub(0, s), c, 0, 0, 0, 1]
def D2(a, b): return [a, 0, 0, 0, b, 0, 0, 0, 1]


class Trig(Contract):
    """contracts that mention sine and cosine"""
    ty = 'd'
    def setup(s, e, case):
        b = B(e); s.t = b.array('t', EL[s.ty], 9, kind='param')
        s.v = [b.real(n, s.ty == 'd') for n in s.names]
        return b.st, [PV(s.t, 0)] + s.v, b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        cs = lambda a: (e.uf1('cos')(zr(a)), e.uf1('sin')(zr(a)))
        want = s.want([x.t for x in s.v], cs)
        for i in range(9): e.oblige(st, eq(zr(e.read(st, s.t, None, i * TSIZE[EL[s.ty]], EL[s.ty]).t), zr(want[i])), 'post', 't[%d]' % i, assume=False)


def chain(*ms):
    r = ms[0]
    for m in ms[1:]: r = matmul(r, m, 3)
    return r


for sf, ty in (('s', 'f'), ('d', 'd')):
    reg(type('sim' + sf, (Trig,), dict(name='nx_transform_2d_fill_similarity_' + sf, ty=ty, names=('dx_post', 'dy_post', 'lambda', 'theta', 'dx_pre', 'dy_pre'),
        __doc__='T(post) lambda R(theta) T(pre)', want=lambda s, v, cs: chain(T(v[0], v[1]), D2(v[2], v[2]), R2(*cs(v[3])), T(v[4], v[5])))))
    reg(type('aff' + sf, (Trig,), dict(name='nx_transform_2d_fill_affine_' + sf, ty=ty, names=('dx_post', 'dy_post', 'lambda', 'psi', 'theta', 'phi', 'dx_pre', 'dy_pre'),
        __doc__='T(post) lambda R(psi) diag(1/cos theta, 1) R(phi) T(pre)',
        want=lambda s, v, cs: chain(T(v[0], v[1]), D2(v[2], v[2]), R2(*cs(v[3])), D2(div(1, cs(v[4])[0]), 1), R2(*cs(v[5])), T(v[6], v[7])))))


class Unit(Contract):
    """maps the four corners (TL, TR, BR, BL) to (0,0), (1,0), (1,1), (0,1)"""
    ty = 'd'
    def setup(s, e, case):
        b = B(e); ty = EL[s.ty]; s.h = b.array('h', ty, 9, kind='param'); x = b.array('x', ty, 8, kind='param', ro=True)
        s.x = [e.read(b.st, x, None, i * TSIZE[ty], ty).t for i in range(8)]
        return b.st, [PV(s.h, 0), PV(x, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st; ty = EL[s.ty]
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        for z, s2 in branch(e, st, eq(zr(o.ret.t), 0)):
            if z: continue
            h = [e.read(s2, s.h, None, i * TSIZE[ty], ty).t for i in range(9)]
            for k, (tx, tyy) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
                c = [s.x[2 * k], s.x[2 * k + 1], 1]
                X = [sum_(mul(h[3 * j + r], c[j]) for j in range(3)) for r in range(3)]
                e.oblige(s2, eq(zr(X[0]), zr(X[2] if tx else 0)), 'post', 'corner %d: x' % k, assume=False)
                e.oblige(s2, eq(zr(X[1]), zr(X[2] if tyy else 0)), 'post', 'corner %d: y' % k, assume=False)


reg(type('u1', (Unit,), dict(name='nx_homography_estimate_unit')))
reg(type('u2', (Unit,), dict(name='nx_transform_2d_fill_perspective_d')))
reg(type('u3', (Unit,), dict(name='nx_transform_2d_fill_perspective_s', ty='f')))


def hx(h, x, y): return [add(add(mul(h[r], x), mul(h[3 + r], y)), h[6 + r]) for r in range(3)]


alg('nx_homography_transfer_fwd', [('h', 'd', 9), ('xp', 'F', 2), ('x', 'f', 2)],
    lambda A: (lambda v: {'ret': v[2], 'xp': [div(v[0], v[2]), div(v[1], v[2])]})(hx(A['h'], A['x'][0], A['x'][1])), 'image of the point; returns the scale', pre=lambda A: True)
UT = lambda K: [0 if i in (1, 2, 5) else 1 if i == 8 else K[i] for i in range(9)]
alg('nx_essential_from_fundamental', [('E', 'D', 9), ('F', 'd', 9), ('K', 'd', 9), ('Kp', 'd', 9)],
    lambda A: {'E': chain(transpose(UT(A['Kp']), 3), A['F'], UT(A['K']))}, "K'^T F K for upper triangular K, K' with unit corner")
alg('nx_essential_from_Rt', [('E', 'D', 9), ('R', 'd', 9), ('t', 'd', 3)],
    lambda A: {'E': matmul([0, A['t'][2], sub(0, A['t'][1]), sub(0, A['t'][2]), 0, A['t'][0], A['t'][1], sub(0, A['t'][0]), 0], A['R'], 3)}, '[t]x R')

# rows of the linear systems, one pair of a match (x, y, x', y') at a time
alg('nx_fundamental_constraints_from_corr', [('rcons', 'D', 9), ('corr', 'f', 4)],
    lambda A: (lambda x, y, u, v: {'rcons': [mul(x, u), mul(y, u), u, mul(x, v), mul(y, v), v, x, y, 1]})(*A['corr']), "coefficients of x'^T F x in the entries of F, row by row")
alg('nx_homography_constraints_from_corr', [('rcons', 'D', 18), ('corr', 'f', 4)],
    lambda A: (lambda x, y, u, v, m=lambda a: sub(0, a): {'rcons': [0, 0, 0, m(x), m(y), -1, mul(v, x), mul(v, y), v, x, y, 1, 0, 0, 0, m(mul(u, x)), m(mul(u, y)), m(u)]})(*A['corr']), "x' x (H x) = 0 in the entries of H, row by row: two equations")

STATS = [('st', 'd', 6)]   # m, mp, d, dp


def Tn(st, p):
    """normalising transform: (x - m) / d"""
    mx, my, d = (st[2], st[3], st[5]) if p else (st[0], st[1], st[4])
    i = div(1, d)
    return [i, 0, 0, 0, i, 0, sub(0, mul(mx, i)), sub(0, mul(my, i)), 1]


def Tninv(st, p):
    mx, my, d = (st[2], st[3], st[5]) if p else (st[0], st[1], st[4])
    return [d, 0, 0, 0, d, 0, mx, my, 1]


nz = lambda A: And(ne(A['st'][4], 0), ne(A['st'][5], 0))
alg('nx_point_match_2d_stats_denormalize_homography', STATS + [('h', 'xd', 9)], lambda A: {'h': chain(Tninv(A['st'], 1), A['h'], Tn(A['st'], 0))}, "T'^-1 H T", pre=nz)
alg('nx_point_match_2d_stats_denormalize_fundamental', STATS + [('f', 'xd', 9)], lambda A: {'f': chain(transpose(Tn(A['st'], 1), 3), A['f'], Tn(A['st'], 0))}, "T'^T F T", pre=nz)
alg('nx_point_match_2d_stats_reset', [('st', 'D', 6)], lambda A: {'st': [0, 0, 0, 0, 1, 1]}, 'identity normalisation')


# -- lists of point matches
def pmo():
    f = ['x', 'xp', 'match_cost', 'sigma_x', 'sigma_xp', 'id', 'idp', 'is_inlier']
    return llir_offsets(PM, 'struct NXPointMatch2D', f)


FF = ('x', 'xp', 'match_cost', 'sigma_x', 'sigma_xp')


class Matches(Contract):
    """n correspondences of any values"""
    unroll = False
    def mk(s, e, b, ro=False):
        s.lay = pmo(); s.sz = s.lay[''][1]; s.e = e
        s.n = b.int('n_corr', 32, 0, (1 << 24))
        s.c = Obj('corr', mul(s.n.t, s.sz), kind='param', ro=ro); s.c.layout = None; b.reg(s.c)
    def at(s, st, j, f, k=0, base=False):
        off = add(mul(s.sz, j), s.lay[f][0] + 4 * k); ty = {'id': 'i64', 'idp': 'i64', 'is_inlier': 'i32'}.get(f, 'f32')
        return (s.e.base_read if base else s.e.read)(st, s.c, None, off, ty)
    def fields(s): return [('x', 0), ('x', 1), ('xp', 0), ('xp', 1), ('match_cost', 0), ('sigma_x', 0), ('sigma_xp', 0), ('id', 0), ('idp', 0), ('is_inlier', 0)]
    def dom(s, j): return And(le(0, j), lt(j, s.n.t))
    def field_cand(s, L, f, k, final, tag=''):
        """field f of the first k matches is final(st, j), of the others as at loop entry"""
        e = s.e
        def frm(v, co):
            j, = co
            def g(t):
                cur = s.at(t, j, f, k); ini = s.at(st_with(t, L.st0), j, f, k)
                return And(guarded(e, t, lt(j, v.k), lambda t2: same(e, t2, cur, final(t2, j))), Implies(le(v.k, j), same(e, t, cur, ini)))
            return guarded(e, v.st, s.dom(j), g)
        return QCand('%s%s[%d] of the first k matches done, others as before' % (tag, f, k), lambda v: s.c, 1, lambda j: add(mul(s.sz, j), s.lay[f][0] + 4 * k), frm)
    def keep(s, L, fs):
        return [s.field_cand(L, f, k, lambda t, j, f=f, k=k: s.at(st_with(t, L.st0), j, f, k), 'unchanged ') for f, k in fs]
    def check_fields(s, e, st, want):
        j = z3.Int(uid('j')); st.assume(s.dom(j)); st.coords.append((j,))
        for f, k in s.fields():
            w = want(st, j, f, k)
            e.oblige(st, same(e, st, s.at(st, j, f, k), w if w is not None else s.at(st, j, f, k, base=True)), 'post', '%s[%d] of every match' % (f, k), assume=False)


class Mark(Matches):
    """flags exactly the matches within the tolerance and returns how many; nothing else changes"""
    def setup(s, e, case):
        b = B(e); h = b.array('h', 'f64', 9, kind='param', ro=True); s.mk(e, b); tol = b.real('tol', True); s.tol = tol.t
        s.h = [e.read(b.st, h, None, 8 * i, 'f64').t for i in range(9)]
        s.S = Sum('inliers', lambda t, i: ite(s.isin(t, i), 1, 0), real=False)
        return b.st, [PV(h, 0), s.n, PV(s.c, 0), tol], b.aux()
    def fl(s, t, j, f, k): return s.at(t, j, f, k, base=True).t
    def flag(s, t, j): return IV(32, ite(s.isin(t, j), 1, 0), 0, 1)
    def loop_cands(s, e, L):
        fs = [x for x in s.fields() if x[0] != 'is_inlier']
        return sum_cands(L, s.S) + [s.field_cand(L, 'is_inlier', 0, s.flag)] + s.keep(L, fs) + [Cand('count bound', lambda v: And(le(0, s.S.at(v.st, v.k)), le(s.S.at(v.st, v.k), v.k)))]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, eq(e.S(st, o.ret), s.S.at(st, s.n.t)), 'post', 'number of inliers')
        s.check_fields(e, st, lambda t, j, f, k: s.flag(t, j) if f == 'is_inlier' else None)


class MarkH(Mark):
    src, dst = 'x', 'xp'
    def isin(s, t, j):
        v = hx(s.h, s.fl(t, j, s.src, 0), s.fl(t, j, s.src, 1))
        dx, dy = (sub(div(v[k], v[2]), s.fl(t, j, s.dst, k)) for k in (0, 1))
        return lt(add(mul(dx, dx), mul(dy, dy)), mul(s.tol, s.tol))


reg(type('mh', (MarkH,), dict(name='nx_homography_mark_inliers')))
reg(type('mhi', (MarkH,), dict(name='nx_homography_mark_inliers_inv', src='xp', dst='x')))


@reg
class MarkF(Mark):
    name = 'nx_fundamental_mark_inliers'
    def isin(s, t, j):
        e = s.e; l = hx(s.h, s.fl(t, j, 'x', 0), s.fl(t, j, 'x', 1))
        num = add(add(mul(l[0], s.fl(t, j, 'xp', 0)), mul(l[1], s.fl(t, j, 'xp', 1))), l[2])
        d = div(num, e.uf1('sqrt')(zr(add(mul(l[0], l[0]), mul(l[1], l[1])))))
        return lt(z3.If(d < 0, -d, d), s.tol)


@reg
class CountIn(Matches):
    """number of matches whose flag is set"""
    name = 'nx_point_match_2d_count_inliers'
    def setup(s, e, case):
        b = B(e); s.mk(e, b, ro=True)
        s.S = Sum('flags', lambda t, i: ite(ne(e.S(t, s.at(t, i, 'is_inlier')), 0), 1, 0), real=False)
        return b.st, [s.n, PV(s.c, 0)], b.aux()
    def loop_cands(s, e, L): return sum_cands(L, s.S) + [Cand('count bound', lambda v: And(le(0, s.S.at(v.st, v.k)), le(s.S.at(v.st, v.k), v.k)))]
    def post(s, e, st0, o, args, aux):
        e.oblige(o.st, eq(e.S(o.st, o.ret), s.S.at(o.st, s.n.t)), 'post', 'count')


@reg
class Denorm(Matches):
    """x' = d x + m for both points, standard deviations times d; the rest is kept"""
    name = 'nx_point_match_2d_stats_denormalize_matches'
    def setup(s, e, case):
        b = B(e); st = b.array('stats', 'f64', 6, kind='param', ro=True); s.mk(e, b)
        s.q = [e.read(b.st, st, None, 8 * i, 'f64').t for i in range(6)]
        return b.st, [PV(st, 0), s.n, PV(s.c, 0)], b.aux()
    def new(s, t, j, f, k):
        o = s.at(t, j, f, k, base=True)
        if f in ('x', 'xp'): return FV(add(mul(s.q[5 if f == 'xp' else 4], o.t), s.q[(2 if f == 'xp' else 0) + k]))
        if f in ('sigma_x', 'sigma_xp'): return FV(mul(s.q[5 if f == 'sigma_xp' else 4], o.t))
        return o
    def loop_cands(s, e, L): return [s.field_cand(L, f, k, lambda t, j, f=f, k=k: s.new(t, j, f, k)) for f, k in s.fields()]
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        s.check_fields(e, o.st, s.new)


@reg
class Normalize(Matches):
    """stats are the means and the mean distances to them; x' = (x - m) / d, standard deviations divided by d; the rest is kept"""
    name = 'nx_point_match_2d_stats_normalize_matches'
    def setup(s, e, case):
        b = B(e); s.sto = b.array('stats', 'f64', 6, kind='param'); s.mk(e, b); b.st.assume(le(1, s.n.t))
        s.Sx = [Sum('s%d' % i, lambda t, j, i=i: s.at(t, j, ('x', 'xp')[i // 2], i % 2, base=True).t) for i in range(4)]
        # names for the means, the mean distances and the centred coordinates, each with its defining equation
        s.M = [z3.Real(uid('mean%d' % i)) for i in range(4)]; s.D = [z3.Real(uid('mdist%d' % p)) for p in (0, 1)]
        s.C = {(f, k): z3.Function(uid('centred_%s%d' % (f, k)), z3.IntSort(), z3.RealSort()) for f in ('x', 'xp') for k in (0, 1)}
        def dist(t, j, p):
            a = [s.cen(t, j, ('x', 'xp')[p], k) for k in (0, 1)]
            return e.uf1('sqrt')(zr(add(mul(a[0], a[0]), mul(a[1], a[1]))))
        s.Sd = [Sum('d%d' % p, lambda t, j, p=p: dist(t, j, p)) for p in (0, 1)]
        return b.st, [PV(s.sto, 0), s.n, PV(s.c, 0)], b.aux()
    def inv(s): return z3.RealVal(1) / z3.ToReal(zi(s.n.t))
    def mean(s, t, i):
        t.assume(s.M[i] == s.Sx[i].at(t, s.n.t) * s.inv()); return s.M[i]
    def md(s, t, p):
        t.assume(s.D[p] == s.Sd[p].at(t, s.n.t) * s.inv()); return s.D[p]
    def cen(s, t, j, f, k):
        j = zi(j); c = s.C[f, k](j)
        t.assume(c == s.at(t, j, f, k, base=True).t - s.mean(t, (2 if f == 'xp' else 0) + k)); return c
    def centred(s, t, j, f, k): return FV(s.cen(t, j, f, k)) if f in ('x', 'xp') else s.at(t, j, f, k, base=True)
    def scaled(s, t, j, f, k):
        o = s.centred(t, j, f, k)
        return FV(div(o.t, s.md(t, f in ('xp', 'sigma_xp')))) if f in ('x', 'xp', 'sigma_x', 'sigma_xp') else o
    def loop_cands(s, e, L):
        out = []
        for i in range(4): out.append(Cand('sum %d' % i, lambda v, i=i: eq(s.q(v.st, i), s.Sx[i].at(v.st, v.k))))
        for i in range(4): out.append(Cand('mean %d' % i, lambda v, i=i: eq(s.q(v.st, i), s.mean(v.st, i))))
        for p in (0, 1): out.append(Cand('distance sum %d' % p, lambda v, p=p: eq(s.q(v.st, 4 + p), s.Sd[p].at(v.st, v.k))))
        for p in (0, 1): out.append(Cand('distance %d zero' % p, lambda v, p=p: eq(s.q(v.st, 4 + p), 0)))
        for p in (0, 1): out.append(Cand('mean distance %d' % p, lambda v, p=p: eq(s.q(v.st, 4 + p), s.md(v.st, p))))
        for f, k in s.fields():
            out.append(s.field_cand(L, f, k, lambda t, j, f=f, k=k: s.centred(t, j, f, k), 'centred '))
            out.append(s.field_cand(L, f, k, lambda t, j, f=f, k=k: s.scaled(t, j, f, k), 'scaled '))
        return out
    def q(s, st, i): return zr(s.e.read(st, s.sto, None, 8 * i, 'f64').t)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        for i in range(4): e.oblige(st, eq(s.q(st, i), s.mean(st, i)), 'post', 'mean %d' % i)
        for p in (0, 1): e.oblige(st, eq(s.q(st, 4 + p), s.md(st, p)), 'post', 'mean distance %d' % p)
        s.check_fields(e, st, s.scaled)


class Sampler(Contract):
    """a sample in [0,1) (see the samplers property)"""
    name = 'nx_uniform_sampler_sample_s'
    def spec(s, e, st, args):
        r = z3.Real(uid('sample')); st.assume(And(r >= 0, r < 1)); return [(st, FV(r))]


class SamplerInst(Contract):
    name = 'nx_uniform_sampler_instance'
    def spec(s, e, st, args): return [(st, PV(Obj('sampler', 8, kind='param'), 0))]


CONTRACTS['nx_uniform_sampler_sample_s'] = Sampler(); CONTRACTS['nx_uniform_sampler_instance'] = SamplerInst()


class Pick(Contract):
    """the chosen indices are below n_top and pairwise different"""
    name = 'nx_select_prosac_candidates'; total = False; unroll = False
    trusts = ('nx_uniform_sampler_sample_s returns a value in [0,1), and its product with n_top does not round up to n_top (proved on paper for float)', 'termination of rejection sampling has probability 1, not proved')
    def setup(s, e, case):
        b = B(e); n = s.n = b.int('n_top', 32, s.m, 1 << 24); s.ids = b.array('ids', 'i32', s.m, kind='param')
        return b.st, [n, PV(s.ids, 0)], b.aux()
    def v(s, e, st, i): return e.S(st, e.read(st, s.ids, None, mul(4, i), 'i32'))
    def loop_cands(s, e, L):
        out = []
        A = ints(L) + [('k',)]
        for a in A + list(range(s.m + 1)):
            hi = lambda v, a=a: a if isinstance(a, int) else v.get(a)
            nmm = a if isinstance(a, int) else nm(a)
            for d in (0, 1):
                out.append(Cand('entries up to %s+%d in range' % (nmm, d), lambda v, hi=hi, d=d: And(*[Implies(lt(i, add(hi(v), d)), And(le(0, s.v(e, v.st, i)), lt(s.v(e, v.st, i), s.n.t))) for i in range(s.m)])))
                out.append(Cand('entries up to %s+%d distinct' % (nmm, d), lambda v, hi=hi, d=d: And(*[Implies(lt(j, add(hi(v), d)), ne(s.v(e, v.st, i), s.v(e, v.st, j))) for j in range(s.m) for i in range(j)])))
        for a in A:
            for c in (s.m - 1, s.m): out.append(Cand('%s <= %d' % (nm(a), c), lambda v, a=a, c=c: le(v.get(a), c)))
            for c in (-1, 0, 1): out.append(Cand('%d <= %s' % (c, nm(a)), lambda v, a=a, c=c: le(c, v.get(a))))
            for oa in [x for (Lo, k, env) in L.outer for x in [e.canon(L.st0, env[p.res]) for p in Lo.phis if isinstance(env.get(p.res), IV)]]:
                for c in (0, 1): out.append(Cand('%s + %d <= outer %s' % (nm(a), c, short_(oa)), lambda v, a=a, oa=oa, c=c: le(add(v.get(a), c), oa)))
        # scanning back from the newest entry: it differs from those already compared
        for a in A:
            for oa in [x for (Lo, k, env) in L.outer for x in [e.canon(L.st0, env[p.res]) for p in Lo.phis if isinstance(env.get(p.res), IV)] + [k]]:
                out.append(Cand('newest differs above %s (%s)' % (nm(a), short_(oa)), lambda v, a=a, oa=oa: And(*[Implies(And(eq(oa, i), lt(v.get(a), j)), ne(s.v(e, v.st, i), s.v(e, v.st, j))) for i in range(s.m) for j in range(i)])))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        for i in range(s.m):
            e.oblige(st, And(le(0, s.v(e, st, i)), lt(s.v(e, st, i), s.n.t)), 'post', 'index %d in range' % i)
            for j in range(i): e.oblige(st, ne(s.v(e, st, i), s.v(e, st, j)), 'post', 'indices %d and %d differ' % (j, i))


def short_(t): return str(t)[:20]


reg(type('p4', (Pick,), dict(m=4, files=['src/nx_homography.c'], __doc__=Pick.__doc__)), 'nx_select_prosac_candidates@homography')
reg(type('p8', (Pick,), dict(m=8, files=['src/nx_epipolar.c'], __doc__=Pick.__doc__)), 'nx_select_prosac_candidates@epipolar')
