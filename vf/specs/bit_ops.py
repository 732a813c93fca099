"""nx_bit_ops.[ch] under contract."""
import os, z3
from ..sym import *
from ..contract import *
from ..engine import Out

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tu', 'inlines.c')
FILES = [TU, 'src/nx_bit_ops.c']


def popcount(x, w):
    """number of one bits: balanced sum of the individual bits, each partial sum in its exact width"""
    lv = [z3.Extract(i, i, x) for i in range(x.size())]
    while len(lv) > 1:
        k = lv[0].size()
        lv = [z3.ZeroExt(1, lv[i]) + z3.ZeroExt(1, lv[i + 1]) for i in range(0, len(lv), 2)]
    return z3.ZeroExt(w - lv[0].size(), lv[0])


class Count32(Contract):
    name = 'nx_bit_count32'; bits = 32; bv = True
    def setup(s, e, case):
        b = B(e); return b.st, [b.int('x', s.bits)], b.aux()
    def spec(s, e, st, args):
        if not e.bv: raise Unsupported('popcount outside bit-vector mode')
        return [(st, e.mkbv(32, popcount(e.bvt(args[0]), 32)))]


class Count64(Count32):
    name = 'nx_bit_count64'; bits = 64


class Rotr32(Contract):
    name = 'nx_rotr32'; bits = 32; bv = True
    def setup(s, e, case):
        b = B(e); x = b.int('x', s.bits); n = b.int('n', 8)
        b.st.assume(And(z3.UGE(n.t, 1), z3.ULT(n.t, s.bits)))
        return b.st, [x, n], b.aux()
    def spec(s, e, st, args):
        x, n = e.bvt(args[0]), args[1]
        if isc(n.t): return [(st, e.mkbv(s.bits, z3.RotateRight(x, n.t)))]
        e.oblige(st, And(z3.UGE(n.t, 1), z3.ULT(n.t, s.bits)), 'pre', 'rotation amount in 1..width-1')
        k = z3.ZeroExt(s.bits - 8, n.t)
        return [(st, IV(s.bits, z3.LShR(x, k) | (x << (z3.BitVecVal(s.bits, s.bits) - k))))]


class Rotr64(Rotr32):
    name = 'nx_rotr64'; bits = 64


class Split32(Contract):
    name = 'nx_split_big_endian32'; bits = 32; bv = True
    def setup(s, e, case):
        b = B(e); a = b.array('bytes', 'i8', s.bits // 8); return b.st, [PV(a, 0), b.int('x', s.bits)], b.aux()
    def spec(s, e, st, args):
        p, x = args
        n = s.bits // 8
        e.valid(st, p, n, 'pre: %d writable bytes' % n, wr=True)
        for i in range(n):
            if e.bv:
                sh = 8 * (n - 1 - i)
                v = e.mkbv(8, z3.Extract(sh + 7, sh, e.bvt(x)))
            else:
                v = IV(8, imod(idiv(e.U(st, x), 1 << (8 * (n - 1 - i))), 256), 0, 255)
            e.write(st, p.obj, p.idx, add(p.off, i), 'i8', v)
        return [(st, None)]


class Split64(Split32):
    name = 'nx_split_big_endian64'; bits = 64


class Compose32(Contract):
    name = 'nx_compose_big_endian32'; bv = True
    def setup(s, e, case):
        b = B(e); a = b.array('bytes', 'i8', 4, ro=True); return b.st, [PV(a, 0)], b.aux()
    def spec(s, e, st, args):
        p, = args
        if not e.bv: raise Unsupported('compose outside bit-vector mode')
        e.valid(st, p, 4, 'pre: 4 readable bytes')
        bs = [e.bvt(e.read(st, p.obj, p.idx, add(p.off, i), 'i8')) for i in range(4)]
        return [(st, e.mkbv(32, z3.Concat(*bs)))]


class ArrNew(Contract):
    name = 'nx_bit_array_new'
    def setup(s, e, case):
        b = B(e); return b.st, [b.int('n', 64, 0, 1 << 40)], b.aux()
    def spec(s, e, st, args):
        n = e.U(st, args[0])
        o = fresh_obj('bits', idiv(add(n, 7), 8))
        return [(st, PV(o, 0))]


class ArrZero(Contract):
    name = 'nx_bit_array_set_zero'
    def setup(s, e, case):
        b = B(e); n = b.int('n', 64, 0, 1 << 40)
        a = b.array('bits', 'i8', idiv(add(n.t, 7), 8))
        return b.st, [n, PV(a, 0)], b.aux(a=a)
    def post(s, e, st0, o, args, aux):
        i = z3.Int('bit'); st = o.st
        st.assume(And(i >= 0, lt(i, args[0].t)))
        v = e.read(st, aux.a, None, idiv(i, 8), 'i8')
        e.oblige(st, eq(v.t, 0), 'post', 'every bit below n is 0')


def bit(v, j): return imod(idiv(v, zi(2) ** j) if not isc(j) else idiv(v, 1 << j), 2)


class ArrSet(Contract):
    """set(i,v): bit i becomes v, every other bit of the array keeps its value"""
    name = 'nx_bit_array_set'
    def setup(s, e, case):
        b = B(e); n = b.int('n', 64, 1, 1 << 40); i = b.int('i', 64, 0, 1 << 40)
        b.st.assume(lt(i.t, n.t))
        a = b.array('bits', 'i8', idiv(add(n.t, 7), 8))
        return b.st, [PV(a, 0), i, b.int('value', 32)], b.aux(a=a, n=n)
    def post(s, e, st0, o, args, aux):
        st = o.st
        by = z3.Int('byte')
        i = args[1].t
        for j in range(8):
            s2 = st.copy(); s2.assume(And(by >= 0, lt(by, aux.a.size)))
            new = e.read(s2, aux.a, None, by, 'i8')
            s3 = st_with(s2, st0)
            old = e.read(s3, aux.a, None, by, 'i8')
            me = eq(add(mul(by, 8), j), i)
            want = ite(me, ite(eq(args[2].t, 0), 0, 1), bit(e.U(s2, old), j))
            e.oblige(s2, eq(bit(e.U(s2, new), j), want), 'post', 'bit %d of every byte: set exactly when addressed' % j)


class ArrGet(Contract):
    name = 'nx_bit_array_get'
    def setup(s, e, case):
        b = B(e); n = b.int('n', 64, 1, 1 << 40); i = b.int('i', 64, 0, 1 << 40)
        b.st.assume(lt(i.t, n.t))
        a = b.array('bits', 'i8', idiv(add(n.t, 7), 8), ro=True)
        return b.st, [PV(a, 0), i], b.aux(a=a)
    def post(s, e, st0, o, args, aux):
        st = o.st; i = args[1].t
        v = e.U(st, e.read(st, aux.a, None, idiv(i, 8), 'i8'))
        for j in range(8):
            s2 = st.copy(); s2.assume(eq(imod(i, 8), j))
            if not e.pr.feasible(s2): continue
            e.oblige(s2, eq(ne(e.S(s2, o.ret), 0), eq(bit(v, j), 1)), 'post', 'nonzero iff bit %d is set' % j)


ALL = [Count32, Count64, Rotr32, Rotr64, Split32, Split64, Compose32, ArrNew, ArrZero, ArrSet, ArrGet]
CONTRACTS = {c.name: c() for c in ALL}
