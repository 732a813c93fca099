"""nx_vec234.h, nx_mat234.h, nx_vec.h, nx_mat.h under contract (real arithmetic)."""
import os, z3
from ..sym import *
from ..contract import *
from ..alg import *
from ..engine import Out, Cand, QCand

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'inlines.c')
FILES = [TU, 'src/nx_mat.c', 'src/nx_alloc.c', 'src/nx_math.c']
CONTRACTS = {}


def reg(cls):
    CONTRACTS[cls.name] = cls(); return cls


def alg(name_, sig_, f_, doc, retd=True, pre=None):
    d = dict(name=name_, sig=sig_, f=lambda s, A: f_(A), __doc__=doc, retd=retd)
    if pre: d['pre'] = lambda s, A: pre(A)
    c = type(name_, (Alg,), d)
    reg(c)
    return c


dot = lambda a, b, n=3: sum_(mul(a[i], b[i]) for i in range(n))
I3 = [1, 0, 0, 0, 1, 0, 0, 0, 1]
I4 = [1 if i % 5 == 0 else 0 for i in range(16)]

# -- 3-vectors
alg('nx_svec3_norm_sq', [('v', 'f', 3)], lambda A: {'ret': dot(A['v'], A['v'])}, 'squared length', retd=False)
alg('nx_svec3_dist_sq', [('a', 'f', 3), ('b', 'f', 3)], lambda A: {'ret': sum_(mul(sub(x, y), sub(x, y)) for x, y in zip(A['a'], A['b']))}, 'squared distance', retd=False)
alg('nx_svec3_dot', [('a', 'f', 3), ('b', 'f', 3)], lambda A: {'ret': dot(A['a'], A['b'])}, 'dot product', retd=False)
alg('nx_svec4h_to_euclidean', [('v', 'xf', 4)], lambda A: {'ret': A['v'][3], 'v': [div(A['v'][i], A['v'][3]) for i in range(3)] + [1]}, 'homogeneous to Euclidean', retd=False, pre=lambda A: ne(A['v'][3], 0))
alg('nx_dvec3_copy', [('a', 'D', 3), ('b', 'd', 3)], lambda A: {'a': A['b']}, 'copy')
alg('nx_dvec3_cross', [('c', 'D', 3), ('a', 'd', 3), ('b', 'd', 3)], lambda A: {'c': [sub(mul(A['a'][(i + 1) % 3], A['b'][(i + 2) % 3]), mul(A['a'][(i + 2) % 3], A['b'][(i + 1) % 3])) for i in range(3)]}, 'cross product')
alg('nx_dvec3_dot', [('a', 'd', 3), ('b', 'd', 3)], lambda A: {'ret': dot(A['a'], A['b'])}, 'dot product')
alg('nx_dvec3_norm_sq', [('a', 'd', 3)], lambda A: {'ret': dot(A['a'], A['a'])}, 'squared length')


class SqrtAlg(Alg):
    """contracts that mention a square root need the engine's function symbol"""
    def spec(s, e, st, args):
        s.e = e; s.st = st
        return Alg.spec(s, e, st, args)
    def sqrt(s, x):
        x = zr(x); r = s.e.uf1('sqrt')(x)
        s.st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))); s.st.assume(z3.Implies(x > 0, r > 0))
        return r


@reg
class D3norm(SqrtAlg):
    """length"""
    name = 'nx_dvec3_norm'; sig = [('a', 'd', 3)]
    def f(s, A): return {'ret': s.sqrt(dot(A['a'], A['a']))}


@reg
class D3unit(SqrtAlg):
    """returns the length; a non-zero vector is divided by it, the zero vector is kept"""
    name = 'nx_dvec3_to_unit'; sig = [('a', 'xd', 3)]
    def f(s, A):
        q = dot(A['a'], A['a']); n = s.sqrt(q)
        return [(ne(n, 0), {'ret': n, 'a': [div(x, n) for x in A['a']]}), (eq(n, 0), {'ret': 0, 'a': list(A['a'])})]


# -- 3x3 and 4x4 matrices (column-major)
alg('nx_dmat3_copy', [('a', 'D', 9), ('b', 'd', 9)], lambda A: {'a': A['b']}, 'copy')
for p in 'sd':
    k = 'f' if p == 's' else 'd'; K = k.upper()
    alg('nx_%smat3_mul' % p, [('C', K, 9), ('A', k, 9), ('B', k, 9)], lambda A: {'C': matmul(A['A'], A['B'], 3)}, 'C = A B')
    alg('nx_%smat4_mul' % p, [('C', K, 16), ('A', k, 16), ('B', k, 16)], lambda A: {'C': matmul(A['A'], A['B'], 4)}, 'C = A B')
    alg('nx_%smat3_set_zero' % p, [('C', K, 9)], lambda A: {'C': [0] * 9}, 'zero')
    def inv(A):
        d = det3(A['M']); c = cof3(A['M'])
        return [(ne(d, 0), {'Mi': [div(x, d) for x in c], 'ret': d}), (eq(d, 0), {'Mi': [0] * 9, 'ret': 0})]
    alg('nx_%smat3_inv' % p, [('Mi', K, 9), ('M', k, 9)], inv, 'inverse (adjugate over determinant), zero for a singular matrix; returns the determinant', retd=p == 'd')
alg('nx_sdmat3_inv', [('Mi', 'F', 9), ('M', 'f', 9)], inv, 'inverse (adjugate over determinant), zero for a singular matrix; returns the determinant')
alg('nx_dmat3_mul_ua', [('C', 'D', 9), ('U', 'd', 9), ('A', 'd', 9)], lambda A: {'C': matmul([0 if i in (1, 2, 5) else A['U'][i] for i in range(9)], A['A'], 3)}, 'C = U A for upper triangular U')
alg('nx_dmat3_eye', [('C', 'D', 9)], lambda A: {'C': I3}, 'identity')
alg('nx_dmat4_eye', [('C', 'D', 16)], lambda A: {'C': I4}, 'identity')
alg('nx_dmat3_det', [('A', 'd', 9)], lambda A: {'ret': det3(A['A'])}, 'determinant')
alg('nx_dmat3_xptFx', [('F', 'd', 9), ('x', 'd', 2), ('xp', 'd', 2)], lambda A: {'ret': sum_(mul(mul((A['xp'] + [1])[r], A['F'][3 * c + r]), (A['x'] + [1])[c]) for r in range(3) for c in range(3))}, "x'^T F x")


@reg
class Frob(SqrtAlg):
    """Frobenius norm"""
    name = 'nx_dmat3_frob_norm'; sig = [('A', 'd', 9)]
    def f(s, A): return {'ret': s.sqrt(dot(A['A'], A['A'], 9))}


alg('nx_dmat3_sub', [('A', 'xd', 9), ('B', 'd', 9)], lambda A: {'A': [sub(x, y) for x, y in zip(A['A'], A['B'])]}, 'A - B')
alg('nx_dmat3_transform', [('A', 'd', 9), ('v', 'xd', 3)], lambda A: {'v': [sum_(mul(A['A'][3 * c + r], A['v'][c]) for c in range(3)) for r in range(3)]}, 'A v')
alg('nx_dmat4_to_s', [('As', 'F', 16), ('A', 'd', 16)], lambda A: {'As': A['A']}, 'copy to single precision')
alg('nx_dmat4_set_rotation', [('M', 'xd', 16), ('R', 'd', 9)], lambda A: {'M': [A['R'][3 * (i // 4) + i % 4] if i % 4 < 3 and i // 4 < 3 else A['M'][i] for i in range(16)]}, 'upper left block replaced, rest kept')
alg('nx_dmat4_set_translation', [('M', 'xd', 16), ('t', 'd', 3)], lambda A: {'M': [A['t'][i - 12] if 12 <= i < 15 else A['M'][i] for i in range(16)]}, 'last column replaced, rest kept')


# -- vectors of any length
from ..loops import *

NMAX = (1 << 28)


class VecC(Contract):
    ty = 'f64'; written = False; extra = ()
    def setup(s, e, case):
        b = B(e); n = s.n = b.int('n', 32, 0, NMAX)
        s.v = b.array('v', s.ty, n.t, kind='param', ro=not s.written)
        args = s.mkargs(b, n)
        return b.st, args, b.aux()
    def mkargs(s, b, n): return [n, PV(s.v, 0)]
    def rd(s, e, st, j, o=None): return e.read(st, o or s.v, None, mul(j, TSIZE[s.ty]), s.ty)


class MapC(VecC):
    written = True
    def loop_cands(s, e, L): return map_cands(e, L, s.v, s.ty, lambda t, j: s.final(e, t, j), count=s.n.t)
    def post(s, e, st0, o, args, aux):
        j = z3.Int(uid('j')); st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        st.assume(And(j >= 0, lt(j, s.n.t))); st.coords.append((j,))
        s.st0 = st0
        fin = s.final(e, st, j)
        fin = fin if isinstance(fin, (IV, FV)) else (FV(fin, True) if s.ty[0] == 'f' else IV(32, fin))
        e.oblige(st, same(e, st, s.rd(e, st, j), fin), 'post', 'element j for every j')
    def at0(s, e, t, j, o=None):
        return e.base_read(t, o or s.v, None, mul(j, TSIZE[s.ty]), s.ty)


for nm_, ty_ in (('nx_dvec_set_zero', 'f64'), ('nx_svec_set_zero', 'f32'), ('nx_ivec_set_zero', 'i32')):
    reg(type(nm_, (MapC,), dict(name=nm_, ty=ty_, final=lambda s, e, t, j: 0, __doc__='every element is 0')))


@reg
class DSet(MapC):
    """every element is the value"""
    name = 'nx_dvec_set'
    def mkargs(s, b, n):
        s.val = b.real('value', True); return [n, PV(s.v, 0), s.val]
    def final(s, e, t, j): return s.val


@reg
class DCopy(MapC):
    """copy of the source"""
    name = 'nx_dvec_copy'
    def mkargs(s, b, n):
        s.src = b.array('src', 'f64', n.t, kind='param', ro=True); return [n, PV(s.v, 0), PV(s.src, 0)]
    def final(s, e, t, j): return s.at0(e, t, j, s.src)


@reg
class DAxpy(DCopy):
    """y + a x"""
    name = 'nx_dvec_axpy'
    def mkargs(s, b, n):
        s.src = b.array('x', 'f64', n.t, kind='param', ro=True); s.a = b.real('a', True); return [n, PV(s.v, 0), s.a, PV(s.src, 0)]
    def final(s, e, t, j): return add(s.at0(e, t, j).t, mul(s.a.t, s.at0(e, t, j, s.src).t))


class NormSq(VecC):
    """sum of squares"""
    def setup(s, e, case):
        r = VecC.setup(s, e, case)
        s.S = Sum(s.name, lambda t, i: mul(s.rd(e, t, i).t, s.rd(e, t, i).t))
        return r
    def loop_cands(s, e, L): return sum_cands(L, s.S)
    def want(s, e, st): return s.S.at(st, s.n.t)
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        e.oblige(o.st, eq(zr(o.ret.t), s.want(e, o.st)), 'post', 'result')


class Norm(NormSq):
    """square root of the sum of squares"""
    def want(s, e, st): return e.uf1('sqrt')(s.S.at(st, s.n.t))


for p_, t_ in (('d', 'f64'), ('s', 'f32')):
    reg(type('nsq' + p_, (NormSq,), dict(name='nx_%svec_norm_sq' % p_, ty=t_)))
    reg(type('nrm' + p_, (Norm,), dict(name='nx_%svec_norm' % p_, ty=t_)))


@reg
class ToUnit(VecC):
    """returns the length; a vector of non-zero length is divided by it, otherwise kept"""
    name = 'nx_svec_to_unit'; ty = 'f32'; written = True
    def setup(s, e, case):
        r = VecC.setup(s, e, case)
        s.S = Sum(s.name, lambda t, i: mul(s.at0(e, t, i), s.at0(e, t, i)))
        return r
    def at0(s, e, t, j): return e.base_read(t, s.v, None, mul(j, 4), 'f32').t
    def nrm(s, e, t): return e.uf1('sqrt')(s.S.at(t, s.n.t))
    def loop_cands(s, e, L): return sum_cands(L, s.S) + map_cands(e, L, s.v, 'f32', lambda t, j: s.at0(e, t, j) / s.nrm(e, t), count=s.n.t)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, eq(zr(o.ret.t), s.nrm(e, st)), 'post', 'result')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, s.n.t))); st.coords.append((j,))
        x = s.rd(e, st, j).t; n = s.nrm(e, st)
        e.oblige(st, And(Implies(n != 0, eq(x, s.at0(e, st, j) / n)), Implies(n == 0, eq(x, s.at0(e, st, j)))), 'post', 'element j for every j')


class MaxC(VecC):
    """index of the first largest element (-1 if no element is above the least value)"""
    least = 0; idx = True
    def loop_cands(s, e, L):
        out = []
        vals = reals(L) if s.ty[0] == 'f' else ints(L)
        for m in vals:
            out.append(QCand('%s bounds the elements seen' % nm(m), lambda v: s.v, 1, TSIZE[s.ty],
                             lambda v, co, m=m: guarded(e, v.st, And(le(0, co[0]), lt(co[0], v.k), lt(co[0], s.n.t)), lambda t: le(s.el(e, t, co[0]), v.get(m)))))
            for i in ints(L):
                out.append(Cand('%s is the element at %s' % (nm(m), nm(i)), lambda v, m=m, i=i: Or(And(eq(v.get(i), -1), eq(v.get(m), s.least)), And(le(0, v.get(i)), lt(v.get(i), v.k), lt(v.get(i), s.n.t), guarded(e, v.st, And(le(0, v.get(i)), lt(v.get(i), s.n.t)), lambda t: And(eq(s.el(e, t, v.get(i)), v.get(m)), lt(s.least, v.get(m))))))))
                out.append(QCand('%s is the first such' % nm(i), lambda v: s.v, 1, TSIZE[s.ty],
                             lambda v, co, m=m, i=i: guarded(e, v.st, And(le(0, co[0]), lt(co[0], v.get(i)), lt(co[0], s.n.t)), lambda t: lt(s.el(e, t, co[0]), v.get(m)))))
            if not s.idx:
                s.M = Sum('max', lambda t, i: s.el(e, t, i), zero=s.least, step=lambda a, x: z3.If(x > a, x, a))
                out += sum_cands(L, s.M)
                out.append(Cand('%s at least the least value' % nm(m), lambda v, m=m: le(s.least, v.get(m))))
        return out
    def el(s, e, t, j): return s.rd(e, t, j).t if s.ty[0] == 'f' else e.S(t, s.rd(e, t, j))
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        j = z3.Int(uid('j'))
        if s.idx:
            r = e.S(st, o.ret)
            e.oblige(st, And(le(-1, r), lt(r, s.n.t)), 'post', 'an index of the vector, or -1')
            st.assume(And(j >= 0, lt(j, s.n.t))); st.coords.append((j,)); x = s.el(e, st, j)
            e.oblige(st, guarded(e, st, le(0, r), lambda t: And(le(x, s.el(e, t, r)), Implies(lt(j, r), lt(x, s.el(e, t, r))))), 'post', 'no element is larger and none before is as large')
            e.oblige(st, Implies(eq(r, -1), le(x, s.least)), 'post', '-1 only when no element is above the least value')
        else:
            st.assume(And(j >= 0, lt(j, s.n.t))); st.coords.append((j,)); x = s.el(e, st, j)
            e.oblige(st, And(le(x, o.ret.t), le(s.least, o.ret.t)), 'post', 'no element is larger')
            e.oblige(st, eq(zr(o.ret.t), s.M.at(st, s.n.t)), 'post', 'the running maximum of the elements')


FLT_MAX = Fraction((2 ** 24 - 1) * 2 ** 104)
reg(type('smi', (MaxC,), dict(name='nx_svec_max_idx', ty='f32', least=-FLT_MAX)))
reg(type('smv', (MaxC,), dict(name='nx_svec_max_val', ty='f32', least=-FLT_MAX, idx=False)))
reg(type('imi', (MaxC,), dict(name='nx_ivec_max_idx', ty='i32', least=-(1 << 31))))


@reg
class UcDist(VecC):
    """sum of squared differences, for lengths whose sum fits an int"""
    name = 'nx_ucvec_dist_sq'; ty = 'i8'
    def setup(s, e, case):
        b = B(e); n = s.n = b.int('n', 32, 0, 33025)
        s.v = b.array('v0', 'i8', n.t, kind='param', ro=True); s.w = b.array('v1', 'i8', n.t, kind='param', ro=True)
        d = lambda t, i: sub(e.U(t, s.rd(e, t, i)), e.U(t, s.rd(e, t, i, s.w)))
        s.S = Sum(s.name, lambda t, i: mul(d(t, i), d(t, i)), real=False)
        return b.st, [n, PV(s.v, 0), PV(s.w, 0)], b.aux()
    def loop_cands(s, e, L):
        return sum_cands(L, s.S) + [Cand('sum bound', lambda v: And(le(s.S.at(v.st, v.k), mul(65025, v.k)), le(0, s.S.at(v.st, v.k))), strong=True)]
    def post(s, e, st0, o, args, aux):
        e.oblige(o.st, eq(e.S(o.st, o.ret), s.S.at(o.st, s.n.t)), 'post', 'result')


class DMat(Contract):
    """an m x n block of a column-major matrix with leading dimension ld"""
    unroll = False
    def dims(s, b):
        s.m = b.int('m', 32, 1, NMAX); s.n = b.int('n', 32, 1, NMAX)
    def mat(s, b, name, m, n, ro):
        ld = b.int('ld' + name, 32, 1, NMAX); b.st.assume(And(le(m.t, ld.t), le(mul(n.t, ld.t), (1 << 31) - 1)))
        o = b.array(name, 'f64', mul(n.t, ld.t), kind='param', ro=ro)
        return o, ld


class DMatSet(DMat):
    """element (r, c) is the value for every r < m, c < n; padding is kept"""
    name = 'nx_dmat_set'
    def setup(s, e, case):
        b = B(e); s.dims(b); s.A, s.ld = s.mat(b, 'A', s.m, s.n, False); s.value = b.real('value', True)
        return b.st, [s.m, s.n, PV(s.A, 0), s.ld] + ([s.value] if s.name == 'nx_dmat_set' else []), b.aux()
    def final(s, t, co): return ite(lt(co[1], s.m.t), s.value.t if s.name == 'nx_dmat_set' else 0, s.e.base_read(t, s.A, None, mul(8, add(mul(co[0], s.ld.t), co[1])), 'f64').t)
    def loop_cands(s, e, L):
        s.e = e
        return grid_cands(e, L, s.A, 'f64', (s.n.t, s.ld.t), lambda c, r: add(mul(c, s.ld.t), r), s.final)
    def post(s, e, st0, o, args, aux):
        s.e = e; st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        c, r = z3.Ints(uid('c') + ' ' + uid('r')); st.assume(And(c >= 0, lt(c, s.n.t), r >= 0, lt(r, s.ld.t))); st.coords.append((c, r))
        e.oblige(st, eq(zr(e.read(st, s.A, None, mul(8, add(mul(c, s.ld.t), r)), 'f64').t), zr(s.final(st, (c, r)))), 'post', 'element (r, c) for every r, c')


reg(DMatSet)
reg(type('DMatZero', (DMatSet,), dict(name='nx_dmat_set_zero')))


@reg
class DMatMul(DMat):
    """C(r, c) = sum over j of A(r, j) B(j, c) for every r < m, c < n; padding is kept"""
    name = 'nx_dmat_mul'
    def setup(s, e, case):
        b = B(e); s.dims(b); s.k = b.int('k', 32, 0, NMAX); s.e = e
        s.A, s.lA = s.mat(b, 'A', s.m, s.k, True); s.Bm, s.lB = s.mat(b, 'B', s.k, s.n, True); s.C, s.lC = s.mat(b, 'C', s.m, s.n, False)
        s.P = z3.Function(uid('dot'), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())   # (c, r, first j terms)
        return b.st, [s.m, s.n, s.k, PV(s.A, 0), s.lA, PV(s.Bm, 0), s.lB, PV(s.C, 0), s.lC], b.aux()
    def dot(s, st, c, r, j):
        e = s.e; c, r = zi(c), zi(r)
        st.assume(s.P(c, r, 0) == 0)
        for i in (zi(j), zi(sub(j, 1))):
            if isc(unz(i)) and unz(i) < 0: continue
            el = lambda t: mul(e.base_read(t, s.A, None, mul(8, add(mul(i, s.lA.t), r)), 'f64').t, e.base_read(t, s.Bm, None, mul(8, add(mul(c, s.lB.t), i)), 'f64').t)
            st.assume(guarded(e, st, i >= 0, lambda t: s.P(c, r, i + 1) == s.P(c, r, i) + el(t)))
        return s.P(c, r, zi(j))
    enc = lambda s, c, r: add(mul(c, s.lC.t), r)
    def final(s, t, co):
        c, r = co
        return ite(lt(r, s.m.t), s.dot(t, c, r, s.k.t), s.e.base_read(t, s.C, None, mul(8, s.enc(c, r)), 'f64').t)
    def loop_cands(s, e, L):
        out = grid_cands(e, L, s.C, 'f64', (s.n.t, s.lC.t), s.enc, s.final)
        ks = [k for (_, k, _) in L.outer]
        if len(ks) >= 2:
            for w, (c0, r0) in (('(0,1)', (ks[0], ks[1])), ('(1,0)', (ks[1], ks[0]))):
                for a in reals(L): out.append(Cand('%s is the dot product %s so far' % (nm(a), w), lambda v, a=a, c0=c0, r0=r0: eq(v.get(a), s.dot(v.st, c0, r0, v.k))))
                def f(v, co, c0=c0, r0=r0):
                    c, r = co
                    def g(t):
                        off = mul(8, s.enc(c, r)); cur = zr(e.read(t, s.C, None, off, 'f64').t); ini = zr(e.read(st_with(t, L.st0), s.C, None, off, 'f64').t)
                        here = And(eq(c, c0), eq(r, r0))
                        return And(Implies(here, cur == s.dot(t, c0, r0, v.k)), Implies(Not(here), cur == ini))
                    return guarded(e, v.st, And(le(0, c), lt(c, s.n.t), le(0, r), lt(r, s.lC.t)), g)
                out.append(QCand(w + ': the element holds the dot product so far, the others are kept', lambda v: s.C, 2, lambda c, r: mul(8, s.enc(c, r)), f))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        c, r = z3.Ints(uid('c') + ' ' + uid('r')); st.assume(And(c >= 0, lt(c, s.n.t), r >= 0, lt(r, s.lC.t))); st.coords.append((c, r))
        e.oblige(st, eq(zr(e.read(st, s.C, None, mul(8, s.enc(c, r)), 'f64').t), zr(s.final(st, (c, r)))), 'post', 'element (r, c) for every r, c')
