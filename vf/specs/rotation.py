"""Quaternions, 3-D rotations, pinhole projection, 2-D transforms, homographies, epipolar matrices under contract (real arithmetic)."""
import os, z3
from ..sym import *
from ..contract import *
from ..alg import *
from ..engine import Out, Cand, QCand
from ..loops import *
from . import linalg
from .linalg import TU, SqrtAlg, dot, I3

FILES = [TU, 'src/nx_quaternion.c', 'src/nx_rotation_3d.c', 'src/nx_pinhole.c']
CONTRACTS = dict(linalg.CONTRACTS)
OWN = []


def reg(cls):
    CONTRACTS[cls.name] = cls(); OWN.append(cls.name); return cls


def alg(name_, sig_, f_, doc, retd=True, pre=None, post=None):
    d = dict(name=name_, sig=sig_, f=lambda s, A: f_(A), __doc__=doc, retd=retd)
    if pre: d['pre'] = lambda s, A: pre(A)
    if post: d['post'] = post
    return reg(type(name_, (Alg,), d))


def qmul(r, s):
    """Hamilton product"""
    return [sub(sub(sub(mul(r[0], s[0]), mul(r[1], s[1])), mul(r[2], s[2])), mul(r[3], s[3])),
            sub(add(add(mul(r[0], s[1]), mul(r[1], s[0])), mul(r[2], s[3])), mul(r[3], s[2])),
            add(add(sub(mul(r[0], s[2]), mul(r[1], s[3])), mul(r[2], s[0])), mul(r[3], s[1])),
            add(sub(add(mul(r[0], s[3]), mul(r[1], s[2])), mul(r[2], s[1])), mul(r[3], s[0]))]


conj = lambda q: [q[0]] + [sub(0, x) for x in q[1:4]]
qrot = lambda q, v: qmul(qmul(q[:4], [0] + list(v)), conj(q))[1:]


def qR(q):
    """matrix of the rotation v -> q v q*, column-major"""
    return qrot(q, [1, 0, 0]) + qrot(q, [0, 1, 0]) + qrot(q, [0, 0, 1])


def out(e, st, o, n, ty='f64'): return [e.read(st, o, None, i * TSIZE[ty], ty).t for i in range(n)]


def is_rotation(e, st, R, what='R'):
    """obligations: R^T R = I and det R = 1"""
    P = matmul(transpose(R, 3), R, 3)
    for i in range(9): e.oblige(st, eq(zr(P[i]), zr(I3[i])), 'post', '%s is orthogonal (%d)' % (what, i), assume=False)
    e.oblige(st, eq(zr(det3(R)), zr(1)), 'post', 'det %s = 1' % what, assume=False)


alg('nx_quaternion_scale', [('q', 'xd', 4), ('s', 'sd', 0)], lambda A: {'q': [mul(x, A['s']) for x in A['q']]}, 'q s')
alg('nx_quaternion_add', [('q', 'xd', 4), ('r', 'd', 4)], lambda A: {'q': [add(x, y) for x, y in zip(A['q'], A['r'])]}, 'q + r')
alg('nx_quaternion_sum', [('q', 'D', 4), ('r', 'd', 4), ('s', 'd', 4)], lambda A: {'q': [add(x, y) for x, y in zip(A['r'], A['s'])]}, 'r + s')
alg('nx_quaternion_mul', [('q', 'xd', 4), ('r', 'd', 4)], lambda A: {'q': qmul(A['q'], A['r'])}, 'Hamilton product')
alg('nx_quaternion_prod', [('q', 'D', 4), ('r', 'd', 4), ('s', 'd', 4)], lambda A: {'q': qmul(A['r'], A['s'])}, 'Hamilton product')
alg('nx_quaternion_conj', [('q', 'xd', 4)], lambda A: {'q': conj(A['q'])}, 'conjugate')
alg('nx_quaternion_dot', [('q', 'd', 4), ('r', 'd', 4)], lambda A: {'ret': dot(A['q'], A['r'], 4)}, 'dot product')


@reg
class ToUnit(SqrtAlg):
    """returns the length and divides by it"""
    name = 'nx_quaternion_to_unit'; sig = [('q', 'xd', 4)]
    def pre(s, A): return ne(dot(A['q'], A['q'], 4), 0)
    def f(s, A):
        n = s.sqrt(dot(A['q'], A['q'], 4)); return {'ret': n, 'q': [div(x, n) for x in A['q']]}


alg('nx_quaternion_rotate', [('q', 'd', 4), ('v', 'xd', 3)], lambda A: {'v': qrot(A['q'], A['v'])}, 'vector part of q v q*')


class UnitQ(Alg):
    """precondition |q| = 1, as a rewriting rule q0^2 = 1 - q1^2 - q2^2 - q3^2"""
    def setup(s, e, case):
        st, args, aux = Alg.setup(s, e, case)
        q = [e.read(st, args[s.qi].obj, None, 8 * i, 'f64').t for i in range(4)]
        st.assume(sum_(mul(x, x) for x in q) == 1)
        st.ghost['squares'] = ((q[0], sub(1, sum_(mul(x, x) for x in q[1:]))),)
        return st, args, aux


@reg
class ToR(UnitQ):
    """the rotation matrix of a unit quaternion: columns q e_i q*; it is orthogonal with determinant 1"""
    name = 'nx_quaternion_to_R'; sig = [('q', 'd', 4), ('R', 'D', 9)]; qi = 0
    def f(s, A): return {'R': qR(A['q'])}
    def spec(s, e, st, args):
        q = [e.read(st, args[0].obj, args[0].idx, add(args[0].off, 8 * i), 'f64').t for i in range(4)]
        e.oblige(st, eq(zr(dot(q, q, 4)), zr(1)), 'pre', 'unit quaternion')
        return Alg.spec(s, e, st, args)
    def post(s, e, st0, o, args, aux): is_rotation(e, o.st, out(e, o.st, args[1].obj, 9))


@reg
class ToRt(UnitQ):
    """rotation matrix of the unit quaternion and the translation stored after it"""
    name = 'nx_quaternion_to_Rt'; sig = [('q', 'd', 7), ('R', 'D', 9), ('t', 'D', 3)]; qi = 0
    def f(s, A): return {'R': qR(A['q']), 't': A['q'][4:7]}


@reg
class FromR(Contract):
    """for the matrix of any unit quaternion p the result is p or -p"""
    name = 'nx_quaternion_from_R'
    def setup(s, e, case):
        b = B(e); p = s.p = [z3.Real(uid('p%d' % i)) for i in range(4)]
        b.st.assume(sum_(x * x for x in p) == 1)
        b.st.ghost['squares'] = ((p[0], 1 - p[1] * p[1] - p[2] * p[2] - p[3] * p[3]),)
        R = b.array('R', 'f64', 9, kind='param', ro=True); q = b.array('q', 'f64', 4, kind='param')
        for i, x in enumerate(qR(p)): R.cells[8 * i] = ('f64', FV(z3.simplify(x), True))
        return b.st, [PV(q, 0), PV(R, 0)], b.aux(q=q)
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        q = out(e, o.st, aux.q, 4)
        for i in range(4):
            for j in range(i, 4): e.oblige(o.st, eq(zr(mul(q[i], q[j])), zr(s.p[i] * s.p[j])), 'post', 'q%d q%d = p%d p%d' % (i, j, i, j), assume=False)


@reg
class FromAxisAngle(Contract):
    """(cos a/2, sin a/2 n) for the unit axis n; the identity for angle 0 whatever the axis; the result is a unit quaternion"""
    name = 'nx_quaternion_from_axis_angle'
    def setup(s, e, case):
        b = B(e); q = b.array('q', 'f64', 4, kind='param'); ax = b.array('axis', 'f64', 3, kind='param', ro=True); a = b.real('angle', True)
        s.ax = [e.read(b.st, ax, None, 8 * i, 'f64').t for i in range(3)]
        b.st.assume(dot(s.ax, s.ax) != 0)
        s.a = a.t
        return b.st, [PV(q, 0), PV(ax, 0), a], b.aux(q=q)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        q = out(e, st, aux.q, 4)
        for z, s2 in branch(e, st, eq(s.a, 0)):
            if z:
                for i in range(4): e.oblige(s2, eq(zr(q[i]), zr(1 if i == 0 else 0)), 'post', 'identity for angle 0', assume=False)
                continue
            n = e.uf1('sqrt')(zr(dot(s.ax, s.ax))); h = zr(s.a) / 2
            sn, cs = e.uf1('sin')(h), e.uf1('cos')(h)
            want = [cs] + [sn * x / n for x in s.ax]
            s2.assume(n * n == dot(s.ax, s.ax)); s2.assume(n > 0)
            for i in range(4): e.oblige(s2, eq(zr(q[i]), zr(want[i])), 'post', 'q[%d]' % i, assume=False)
            e.oblige(s2, eq(zr(sum_(mul(x, x) for x in q)), zr(1)), 'post', 'unit length', assume=False)


def elem(ax, c, s):
    """elementary rotation about axis ax, column-major"""
    n = sub(0, s)
    return {'x': [1, 0, 0, 0, c, s, 0, n, c], 'y': [c, 0, n, 0, 1, 0, s, 0, c], 'z': [c, s, 0, n, c, 0, 0, 0, 1]}[ax]


class Euler(Contract):
    def setup(s, e, case):
        b = B(e); R = b.array('R', 'f64', 9, kind='param'); s.ang = [b.real(n, True) for n in ('alpha', 'beta', 'gamma')]
        return b.st, [PV(R, 0)] + s.ang, b.aux(R=R)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        m = {ax: elem(ax, e.uf1('cos')(zr(a.t)), e.uf1('sin')(zr(a.t))) for ax, a in zip('xyz', s.ang)}
        want = I3
        for ax in s.order: want = matmul(want, m[ax], 3)
        got = out(e, st, aux.R, 9)
        for i in range(9): e.oblige(st, eq(zr(got[i]), zr(want[i])), 'post', 'R[%d]' % i, assume=False)
        is_rotation(e, st, got)


@reg
class RzRyRx(Euler):
    """Rz(gamma) Ry(beta) Rx(alpha), a rotation matrix"""
    name = 'nx_rotation_3d_RzRyRx'; order = 'zyx'


@reg
class RxRyRz(Euler):
    """Rx(alpha) Ry(beta) Rz(gamma), a rotation matrix"""
    name = 'nx_rotation_3d_RxRyRz'; order = 'xyz'


@reg
class AxisAngle(Contract):
    """Rodrigues: cos I + (1 - cos) n n^T + sin [n]x for the unit axis n, a rotation matrix"""
    name = 'nx_rotation_3d_axis_angle'
    def setup(s, e, case):
        b = B(e); R = b.array('R', 'f64', 9, kind='param'); ax = b.array('axis', 'f64', 3, kind='param', ro=True); a = b.real('theta', True)
        s.ax = [e.read(b.st, ax, None, 8 * i, 'f64').t for i in range(3)]; s.a = a.t
        b.st.assume(dot(s.ax, s.ax) != 0)
        return b.st, [PV(R, 0), PV(ax, 0), a], b.aux(R=R)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        n = e.uf1('sqrt')(zr(dot(s.ax, s.ax))); st.assume(n * n == dot(s.ax, s.ax)); st.assume(n > 0)
        c, sn = e.uf1('cos')(zr(s.a)), e.uf1('sin')(zr(s.a)); u = [x / n for x in s.ax]
        X = [0, u[2], -u[1], -u[2], 0, u[0], u[1], -u[0], 0]
        got = out(e, st, aux.R, 9)
        for i in range(9): e.oblige(st, eq(zr(got[i]), zr(c * I3[i] + (1 - c) * u[i % 3] * u[i // 3] + sn * X[i])), 'post', 'R[%d]' % i, assume=False)
        is_rotation(e, st, got)


alg('nx_rotation_3d_invert', [('R', 'xd', 9)], lambda A: {'R': transpose(A['R'], 3)}, 'transpose')


@reg
class Krt(Contract):
    """P = K [R | t] for upper triangular K with K(2,2) = 1; an absent factor is the identity (zero translation)"""
    name = 'nx_pinhole_projection_from_krt'; cases = tuple('%d%d%d' % (a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1))
    def setup(s, e, case):
        b = B(e); P = b.array('P', 'f64', 12, kind='param'); args = [PV(P, 0)]; s.v = []
        for nm, n, on in (('K', 9, case[0]), ('R', 9, case[1]), ('t', 3, case[2])):
            if on == '0': args.append(NULL); s.v.append(I3 if n == 9 else [0, 0, 0]); continue
            a = b.array(nm, 'f64', n, kind='param', ro=True); args.append(PV(a, 0)); v = [e.read(b.st, a, None, 8 * i, 'f64').t for i in range(n)]
            if nm == 'K':
                for i, x in ((1, 0), (2, 0), (5, 0), (8, 1)): a.cells[8 * i] = ('f64', FV(Fraction(x), True)); v[i] = x
            s.v.append(v)
        return b.st, args, b.aux(P=P)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        K, R, t = s.v; got = out(e, st, aux.P, 12)
        want = matmul(K, R, 3) + [sum_(mul(K[3 * c + r], t[c]) for c in range(3)) for r in range(3)]
        for i in range(12): e.oblige(st, eq(zr(got[i]), zr(want[i])), 'post', 'P[%d]' % i, assume=False)


class Project(Contract):
    """every point i < n is mapped by P (3x4, column major); nothing else is written"""
    dim, hom = 2, False; unroll = False
    def setup(s, e, case):
        b = B(e); n = s.n = b.int('n', 32, 1, (1 << 24))
        s.P = b.array('P', 'f64', 12, kind='param', ro=True); s.din = 4 if s.hom else 3
        s.X = b.array('X', 'f32', mul(n.t, s.din), kind='param', ro=True); s.x = b.array('x', 'f32', mul(n.t, s.dim), kind='param')
        s.Pv = [e.read(b.st, s.P, None, 8 * i, 'f64').t for i in range(12)]
        return b.st, [PV(s.P, 0), n, PV(s.X, 0), PV(s.x, 0)], b.aux()
    def row(s, e, t, i, r):
        Xv = [e.read(t, s.X, None, mul(4, add(mul(i, s.din), c)), 'f32').t for c in range(s.din)] + ([] if s.hom else [Fraction(1)])
        return sum_(mul(s.Pv[3 * c + r], Xv[c]) for c in range(4))
    def final(s, e, t, i, c):
        return FV(s.row(e, t, i, c) if s.hom else div(s.row(e, t, i, c), s.row(e, t, i, 2)), False)
    def absd(s, e, t, i):
        v = zr(s.row(e, t, i, 2)); return z3.If(v < 0, -v, v)
    def loop_cands(s, e, L):
        out = []
        for c in range(s.dim):
            out += grid_cands(e, L, s.x, 'f32', (s.n.t,), lambda i: mul(i, s.dim), lambda t, co, c=c: s.final(e, t, co[0], c), base=4 * c)
        if not s.hom:
            s.M = Sum('min', lambda t, i: s.absd(e, t, i), zero=DBL_MAX, step=lambda a, x: z3.If(x < a, x, a))
            out += sum_cands(L, s.M)
            for m in reals(L):
                out.append(QCand('%s bounds the depths seen' % nm(m), lambda v: s.X, 1, lambda i: mul(4 * s.din, i), lambda v, co, m=m: guarded(e, v.st, And(le(0, co[0]), lt(co[0], v.k), lt(co[0], s.n.t)), lambda t: le(v.get(m), s.absd(e, t, co[0])))))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret':
            if s.hom: e.oblige(st, False, 'post', 'returns')
            else: e.oblige(st, le(s.M.at(st, s.n.t), 0), 'post', 'fatal only when a point has zero depth')
            return
        i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, s.n.t))); st.coords.append((i,))
        for c in range(s.dim):
            e.oblige(st, eq(zr(e.read(st, s.x, None, add(mul(4 * s.dim, i), 4 * c), 'f32').t), zr(s.final(e, st, i, c).t)), 'post', 'coordinate %d of point i for every i' % c)
        if not s.hom:
            e.oblige(st, le(o.ret.t, s.absd(e, st, i)), 'post', 'returns at most the absolute depth of every point')
            e.oblige(st, eq(zr(o.ret.t), s.M.at(st, s.n.t)), 'post', 'returns the least absolute depth')


DBL_MAX = Fraction((2 ** 53 - 1) * 2 ** 971)
reg(type('pp', (Project,), dict(name='nx_pinhole_project', __doc__=Project.__doc__ + '; returns the least absolute depth')))
reg(type('pph', (Project,), dict(name='nx_pinhole_project_h', dim=3, hom=True, __doc__=Project.__doc__)))
