"""Forward VC generation over LLVM IR, function by function, with contracts at call sites,
inductive loop invariants (Houdini-filtered templates) and an object/offset memory model."""
import sys, struct, time, itertools
from fractions import Fraction
import z3
from . import poly
from . import llir
from .llir import Unsupported, IRError, Ty, I1, I8, I32, I64, PTR
from .sym import *

sys.setrecursionlimit(40000)


import os
DEBUG = bool(os.environ.get('VF_DEBUG'))


class PathEnd(Exception):
    pass


class NonConcrete(Exception):
    pass


class Out:
    """outcome of a function execution"""
    __slots__ = ('kind', 'st', 'ret', 'msg')
    def __init__(s, kind, st, ret=None, msg=None): s.kind, s.st, s.ret, s.msg = kind, st, ret, msg


class QCand:
    """forall coords. formula(view, coords) about the content of an object at enc(coords)"""
    def __init__(s, name, objf, n, enc, formula):
        s.name, s.objf, s.n, s.enc, s.formula = name, objf, n, enc, formula
        s.is_q = True


class Cand:
    def __init__(s, name, f, strong=False): s.name, s.f, s.is_q, s.strong = name, f, False, strong


class View:
    def __init__(s, eng, st, env, k, loop): s.eng, s.st, s.env, s.k, s.loop = eng, st, env, k, loop

    def get(s, acc):
        kind = acc[0]
        if kind == 'k': return s.k
        if kind == 'phi':
            v = s.env[acc[1]]
            if isinstance(v, IV): return s.eng.canon(s.st, v)
            if isinstance(v, FV): return zr(v.t)
            if isinstance(v, PV): return v.off
            return v
        if kind == 'phi.idx': return s.env[acc[1]].idx
        if kind in ('cell', 'cell.off'):
            v = s.eng.read(s.st, acc[1], None, acc[2], acc[3])
            if isinstance(v, IV): return s.eng.canon(s.st, v)
            if isinstance(v, FV): return zr(v.t)
            if isinstance(v, PV): return v.off
            return v
        if kind == 'cell.size':
            v = s.eng.read(s.st, acc[1], None, acc[2], 'ptr')
            return v.obj.size if v.obj is not None else 0
        if kind == 'phi.size':
            v = s.env[acc[1]]
            return v.obj.size if v.obj is not None else 0
        raise KeyError(acc)


class Engine:
    def __init__(s, files, bv=False, timeout=8000, name=''):
        s.files = list(files)
        s.mods = [llir.compile_module(f) for f in files]
        s.bv = bv
        s.pr = Prover(timeout)
        s.obls = []            # obligation records
        s.quiet = 0
        s.contracts = {}
        s.models = {}
        s.cur = None           # contract being verified
        s.fnstack = []
        s.assumptions = set()
        s.max_unroll = 400
        s.icmp_log = None
        s.check_uninit = False
        s.f2i_check = False
        s.globs = {}
        s.fpuf = {}
        s.inlined = set()
        s.deadline = None
        s.fork_limit = 4000
        s.hooks = {}
        s.lazy = False         # bv mode: keep terms unsimplified (compared by sweeping)
        s.shallow = False
        s.loopk = []     # enclosing loops under analysis: (loop, iteration counter, environment)
        from . import models
        models.install(s)
        from . import models_io
        models_io.install(s)

    # ------------------------------------------------------------ obligations
    def oblige(s, st, goal, kind, what='', line=None, assume=True):
        if isc(goal) and goal:
            if not s.quiet: s.obls.append(dict(fn=s.cur.name if s.cur else '?', at=s.fnstack[-1] if s.fnstack else '', kind=kind, what=what, line=getattr(s, 'line', None), status='proved', t=0))
            return True
        if s.quiet:
            if assume:
                st.assume(goal)
                if isc(goal) and not goal: raise PathEnd()
            return True
        if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
        t0 = time.time()
        if not isc(goal) and z3.is_eq(goal) and z3.is_real(goal.arg(0)) and poly.equal(s, st, goal.arg(0), goal.arg(1)):
            ok, model = True, None
            s.pr.backends['normal form'] = s.pr.backends.get('normal form', 0) + 1
        else: ok, model = s.pr.prove2(st, goal)
        rec = dict(fn=s.cur.name if s.cur else '?', at=s.fnstack[-1] if s.fnstack else '', kind=kind, what=what, line=line if line is not None else getattr(s, 'line', None),
                   status='proved' if ok else ('refuted' if ok is False else 'unknown'), t=round(time.time() - t0, 3))
        if not ok:
            rec['model'] = str(model)[:4000] if model is not None else None
            rec['goal'] = str(goal)[:2000]
            rec['case'] = getattr(s, 'case', None)
        s.obls.append(rec)
        if assume:
            if isc(goal) and not goal: raise PathEnd()
            st.assume(goal)
        return bool(ok)

    def q(s, st, goal, timeout=800):
        """quick entailment query"""
        if isc(goal): return goal
        return s.pr.prove(st, goal, timeout) is True

    def forked(s, st, f, depth=0):
        """run f(st), splitting on conditions it cannot decide"""
        base = st.copy()
        try: f(st)
        except ForkOn as fo:
            if depth > 6: raise Unsupported('too many case splits')
            for c in (fo.cond, Not(fo.cond)):
                b = base.copy(); b.assume(c)
                if s.pr.feasible(b): s.forked(b, f, depth + 1)

    def decide(s, st, cond, timeout=1500):
        """True/False if entailed, else None"""
        if isc(cond): return bool(cond)
        c = unz(z3.simplify(cond))
        if isc(c): return bool(c)
        if s.pr.prove(st, cond, timeout) is True: return True
        if s.pr.prove(st, Not(cond), timeout) is True: return False
        return None

    # ------------------------------------------------------------ integers
    def S(s, st, v):
        """signed representative"""
        n = v.bits
        h = 1 << (n - 1)
        if s.bv:
            if isc(v.t): return v.t - (1 << n) if v.t >= h else v.t
            return v.t
        if isc(v.t):
            x = v.t % (1 << n); return x - (1 << n) if x >= h else x
        if v.lo >= -h and v.hi < h: return v.t
        if s.q(st, And(le(-h, v.t), lt(v.t, h))): return v.t
        if v.lo >= 0 and v.hi < 2 * h:
            return ite(lt(v.t, h), v.t, sub(v.t, 2 * h))
        return sub(imod(add(v.t, h), 2 * h), h)

    def U(s, st, v):
        n = v.bits
        m = 1 << n
        if s.bv:
            return v.t
        if isc(v.t): return v.t % m
        if v.lo >= 0 and v.hi < m: return v.t
        if s.q(st, And(le(0, v.t), lt(v.t, m))): return v.t
        if v.lo >= -m // 2 and v.hi < m // 2:
            return ite(lt(v.t, 0), add(v.t, m), v.t)
        return imod(v.t, m)

    def canon(s, st, v):
        """canonical representative used in invariants: i8 unsigned, wider signed"""
        if s.bv: return v.t
        return s.U(st, v) if v.bits == 8 else s.S(st, v)

    def bvt(s, v):
        return z3.BitVecVal(v.t, v.bits) if isc(v.t) else v.t

    def mkbv(s, bits, t):
        if not isc(t) and not s.lazy: t = z3.simplify(t)
        if not isc(t) and z3.is_bv_value(t): t = t.as_long()
        return IV(bits, t)

    def const(s, bits, x):
        if s.bv: return IV(bits, x % (1 << bits))
        return IV(bits, x)

    def off_of(s, st, v):
        """byte/element index (mathematical, signed) of an integer value"""
        if s.bv:
            if isc(v.t): return s.S(st, v)
            return z3.BV2Int(v.t, True)
        return s.S(st, v)

    def from_int(s, bits, t):
        """wrap a mathematical Int term known to be in range"""
        if s.bv:
            if isc(t): return IV(bits, t % (1 << bits))
            return IV(bits, z3.Int2BV(t, bits))
        return IV(bits, t)

    def ibin(s, st, op, a, b, fl, n):
        h = getattr(s.cur, 'ibin', None)       # operations a contract names
        if h is not None:
            r = h(s, st, op, a, b, n)
            if r is not None: return r
        m = 1 << n
        if s.bv:
            if isc(a.t) and isc(b.t):
                r = s.cfold(op, a.t, b.t, n)
                if 'nsw' in fl and op in ('add', 'sub', 'mul'):
                    x, y = s.S(st, a), s.S(st, b)
                    e = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                    if not (-m // 2 <= e < m // 2): s.oblige(st, False, 'signed-overflow', op)
                return IV(n, r)
            x, y = s.bvt(a), s.bvt(b)
            if 'nsw' in fl and op in ('add', 'sub', 'mul'):
                ext = n if op == 'mul' else 1
                ex, ey = z3.SignExt(ext, x), z3.SignExt(ext, y)
                e = {'add': ex + ey, 'sub': ex - ey, 'mul': ex * ey}[op]
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                s.oblige(st, e == z3.SignExt(ext, r), 'signed-overflow', op)
            if op in ('shl', 'lshr', 'ashr'):
                s.oblige(st, z3.ULT(y, z3.BitVecVal(n, n)), 'shift-range', op)
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                s.oblige(st, y != 0, 'div-by-zero', op)
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
                 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
            return s.mkbv(n, r)
        if isc(a.t) and isc(b.t) and op not in ('add', 'sub', 'mul'):
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b.t % m == 0:
                s.oblige(st, False, 'div-by-zero', op); raise PathEnd()
            return IV(n, s.cfold(op, a.t % m, b.t % m, n))
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                x, y = s.S(st, a), s.S(st, b)
                t = {'add': add, 'sub': sub, 'mul': mul}[op](x, y)
                al, ah = (max(a.lo, -m // 2), min(a.hi, m // 2 - 1)) if not isc(x) else (x, x)
                bl, bh = (max(b.lo, -m // 2), min(b.hi, m // 2 - 1)) if not isc(y) else (y, y)
                if x is not a.t: al, ah = -m // 2, m // 2 - 1
                if y is not b.t: bl, bh = -m // 2, m // 2 - 1
                if isc(x): al = ah = x
                if isc(y): bl = bh = y
                lo, hi = s.iv(op, al, ah, bl, bh)
                if lo < -m // 2 or hi >= m // 2:
                    s.oblige(st, And(le(-m // 2, t), lt(t, m // 2)), 'signed-overflow', op)
                    lo, hi = max(lo, -m // 2), min(hi, m // 2 - 1)
                return IV(n, t, lo, hi)
            if op == 'mul':
                # keep representatives small
                x, y = s.U(st, a), s.U(st, b)
                xl, xh = (x, x) if isc(x) else (max(a.lo, 0), min(a.hi, m - 1)) if x is a.t else (0, m - 1)
                yl, yh = (y, y) if isc(y) else (max(b.lo, 0), min(b.hi, m - 1)) if y is b.t else (0, m - 1)
                return IV(n, mul(x, y), *s.iv('mul', xl, xh, yl, yh))
            t = (add if op == 'add' else sub)(a.t, b.t)
            return IV(n, t, *s.iv(op, a.lo, a.hi, b.lo, b.hi))
        if op in ('udiv', 'urem'):
            x, y = s.U(st, a), s.U(st, b)
            s.oblige(st, ne(y, 0), 'div-by-zero', op)
            xh = min(a.hi, m - 1) if x is a.t else m - 1
            if op == 'udiv':
                return IV(n, idiv(x, y), 0, xh if not isc(y) else xh // y)
            return IV(n, imod(x, y), 0, xh if not isc(y) else min(xh, y - 1))
        if op in ('sdiv', 'srem'):
            x, y = s.S(st, a), s.S(st, b)
            s.oblige(st, ne(y, 0), 'div-by-zero', op)
            if not (isc(y) and y != -1) and not (a.lo > -m // 2):
                s.oblige(st, Not(And(eq(x, -m // 2), eq(y, -1))), 'signed-overflow', op)
            xn = True if (x is a.t and a.lo >= 0) else (x >= 0 if isc(x) else s.q(st, le(0, x)))
            yn = (y > 0) if isc(y) else s.q(st, lt(0, y))
            if xn and yn:
                d, r = idiv(x, y), imod(x, y)
                return IV(n, d, 0, m // 2 - 1) if op == 'sdiv' else IV(n, r, 0, m // 2 - 1)
            if isc(x) and isc(y): d = int(Fraction(x, y)); 
            else:
                ax, ay = ite(le(0, x), x, sub(0, x)), ite(le(0, y), y, sub(0, y))
                qq = idiv(ax, ay)
                d = ite(eq(le(0, x), le(0, y)), qq, sub(0, qq))
            return IV(n, d, -m // 2, m // 2 - 1) if op == 'sdiv' else IV(n, sub(x, mul(d, y)), -m // 2, m // 2 - 1)
        if op == 'shl':
            if isc(b.t) and 0 <= b.t < n:
                return s.ibin(st, 'mul', a, IV(n, 1 << b.t), fl - {'nsw'} if 'nsw' not in fl else fl, n)
            v = s.pick(st, b, n)
            if v is not None: return s.ibin(st, 'shl', a, IV(n, v), fl, n)
        if op in ('lshr', 'ashr') and not isc(b.t):
            v = s.pick(st, b, n)
            if v is not None: return s.ibin(st, op, a, IV(n, v), fl, n)
        if op == 'lshr' and isc(b.t) and 0 <= b.t < n:
            x = s.U(st, a); return IV(n, idiv(x, 1 << b.t), 0, (m - 1) >> b.t)
        if op == 'ashr' and isc(b.t) and 0 <= b.t < n:
            x = s.S(st, a); return IV(n, idiv(x, 1 << b.t), (-m // 2) >> b.t, (m // 2 - 1) >> b.t)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isc(y.t) and isinstance(x, ClassIV):
                    r = x.cls(y.t % m)
                    if r is not None: return IV(n, ite(r, y.t % m, 0), 0, y.t % m)
                if isc(y.t):
                    c = y.t % m
                    if c == 0: return IV(n, 0)
                    if (c & (c + 1)) == 0:
                        u = s.U(st, x); return IV(n, imod(u, c + 1), 0, c)
                    if c & (c - 1) == 0:      # single bit
                        u = s.U(st, x); return IV(n, mul(imod(idiv(u, c), 2), c), 0, c)
                    if (m - 1 - c) & (m - 2 - c) == 0:   # clears a single bit
                        bit = m - 1 - c
                        u = s.U(st, x); return IV(n, sub(u, mul(imod(idiv(u, bit), 2), bit)), 0, m - 1)
                    inv = m - c               # mask clearing low bits: ...1110000
                    if inv & (inv - 1) == 0:
                        u = s.U(st, x); return IV(n, sub(u, imod(u, inv)), 0, m - 1)
        if op == 'xor' and isc(b.t) and b.t % m == m - 1:
            return IV(n, sub(-1, a.t), -1 - a.hi, -1 - a.lo)
        if op == 'or':
            for x, y in ((a, b), (b, a)):
                if isc(y.t) and y.t % m == 0: return x
                if isc(y.t) and (y.t % m) & (y.t % m - 1) == 0:
                    c = y.t % m
                    u = s.U(st, x); return IV(n, add(u, mul(sub(1, imod(idiv(u, c), 2)), c)), 0, m - 1)
        if op == 'xor' and getattr(s.cur, 'named_xor', False) and a.lo >= 0 and b.lo >= 0 and max(a.hi, b.hi) < 256:
            f = s.fpuf.setdefault('xor8', z3.Function('m.xor8', z3.IntSort(), z3.IntSort(), z3.IntSort())); x, y = zi(a.t), zi(b.t); r = f(x, y)
            st.assume(And(r >= 0, r < 256, r == f(y, x))); return IV(n, r, 0, 255)
        # general bit operation through bit-vectors
        x, y = z3.Int2BV(zi(s.U(st, a)), n), z3.Int2BV(zi(s.U(st, b)), n)
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': x << y, 'lshr': z3.LShR(x, y), 'ashr': x >> y}[op]
        return IV(n, z3.BV2Int(r), 0, m - 1)

    def pick(s, st, b, n):
        """case split on a shift amount with a small static range"""
        lo, hi = max(b.lo, 0), min(b.hi, n - 1)
        if b.lo < 0 or b.hi >= n: s.oblige(st, And(le(0, b.t), lt(b.t, n)), 'shift-range')
        if hi - lo > 64: return None
        for v in range(lo, hi + 1):
            c = eq(b.t, v)
            d = s.decide(st, c, 500)
            if d is True: return v
            if d is None: raise ForkOn(c)
        raise PathEnd()

    @staticmethod
    def iv(op, al, ah, bl, bh):
        if op == 'add': return al + bl, ah + bh
        if op == 'sub': return al - bh, ah - bl
        p = [al * bl, al * bh, ah * bl, ah * bh]
        return min(p), max(p)

    @staticmethod
    def cfold(op, x, y, n):
        m = 1 << n
        sx, sy = (x - m if x >= m // 2 else x), (y - m if y >= m // 2 else y)
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'udiv': r = x // y
        elif op == 'urem': r = x % y
        elif op == 'sdiv': r = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
        elif op == 'srem': r = abs(sx) % abs(sy) * (-1 if sx < 0 else 1)
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y if y < n else 0
        elif op == 'lshr': r = x >> y if y < n else 0
        elif op == 'ashr': r = sx >> y if y < n else 0
        else: raise Unsupported(op)
        return r % m

    def icmp(s, st, pred, a, b, ty):
        if isinstance(a, PV) or isinstance(b, PV): return s.pcmp(st, pred, a, b)
        if isinstance(a, FnV) or isinstance(b, FnV):
            if pred in ('eq', 'ne') and isinstance(a, FnV) and isinstance(b, FnV):
                return (a.name == b.name) == (pred == 'eq')
            return pred == 'ne'
        if ty.k == 'int' and ty.a == 1:
            e = eq(a, b)
            return e if pred == 'eq' else Not(e)
        n = a.bits
        m = 1 << n
        if s.bv:
            if isc(a.t) and isc(b.t):
                x, y = (a.t, b.t) if pred[0] != 's' else (s.S(st, a), s.S(st, b))
                return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                        'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
            x, y = s.bvt(a), s.bvt(b)
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y),
                 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
            return unz(z3.simplify(r))
        if pred in ('eq', 'ne'):
            h = m // 2
            if (a.lo >= -h and a.hi < h and b.lo >= -h and b.hi < h) or (a.lo >= 0 and a.hi < m and b.lo >= 0 and b.hi < m):
                x, y = a.t, b.t
            else:
                x, y = None, None
                if isc(b.t) or isc(a.t):
                    # comparison with a constant: try signed first
                    v = a if isc(b.t) else b
                    if v.lo >= -h and v.hi < h: x, y = s.S(st, a), s.S(st, b)
                    elif v.lo >= 0 and v.hi < m: x, y = s.U(st, a), s.U(st, b)
                    elif s.q(st, And(le(-h, v.t), lt(v.t, h))): x, y = s.S(st, a), s.S(st, b)
                if x is None: x, y = s.U(st, a), s.U(st, b)
            r = eq(x, y)
            if s.icmp_log is not None:
                s.icmp_log.append((x, y))
                if x is not a.t or y is not b.t: s.icmp_log.append((a.t, b.t))
            return r if pred == 'eq' else Not(r)
        x, y = (s.S(st, a), s.S(st, b)) if pred[0] == 's' else (s.U(st, a), s.U(st, b))
        if s.icmp_log is not None:
            s.icmp_log.append((x, y))
            if x is not a.t or y is not b.t: s.icmp_log.append((a.t, b.t))
        p = pred[1:]
        return lt(x, y) if p == 'lt' else le(x, y) if p == 'le' else lt(y, x) if p == 'gt' else le(y, x)

    def pcmp(s, st, pred, a, b):
        if isinstance(a, IV) or isinstance(b, IV): raise Unsupported('ptr/int compare')
        if isinstance(a, FnV) or isinstance(b, FnV):
            o = a if isinstance(b, FnV) else b
            return pred == 'ne'
        an = True if a.obj is None else a.nullc
        bn = True if b.obj is None else b.nullc
        if pred in ('eq', 'ne'):
            if a.obj is None: r = bn
            elif b.obj is None: r = an
            elif a.obj is b.obj:
                same = And(eq(a.off, b.off), True if a.idx is None else eq(a.idx, b.idx))
                if s.icmp_log is not None and isc(an) and isc(bn): s.icmp_log.append((a.off, b.off))
                r = Or(And(an, bn), And(Not(an), Not(bn), same))
            else: r = And(an, bn)
            return r if pred == 'eq' else Not(r)
        if a.obj is None or b.obj is None or a.obj is not b.obj:
            raise Unsupported('relational compare of unrelated pointers')
        x, y = a.off, b.off
        if s.icmp_log is not None: s.icmp_log.append((x, y))
        p = pred[1:]
        return lt(x, y) if p == 'lt' else le(x, y) if p == 'le' else lt(y, x) if p == 'gt' else le(y, x)

    # ------------------------------------------------------------ fresh values
    def fresh(s, st, ty, name='v', lo=None, hi=None):
        """ty: 'i8'.. 'f32' ... -> value with type-range facts"""
        if ty in ('f32', 'f64'): return FV(z3.Real(uid(name)), ty == 'f64')
        if ty == 'i1': return z3.Bool(uid(name))
        n = int(ty[1:])
        if s.bv: return IV(n, z3.BitVec(uid(name), n))
        if lo is None: lo, hi = (0, 255) if n == 8 else (-(1 << n - 1), (1 << n - 1) - 1)
        t = z3.Int(uid(name))
        st.assume(And(le(lo, t), le(t, hi)))
        return IV(n, t, lo, hi)

    def ival(s, t, bits=32, lo=None, hi=None):
        return s.from_int(bits, t) if s.bv else IV(bits, t, lo, hi)

    # ------------------------------------------------------------ memory
    def new_obj(s, st, name, size, **kw):
        o = Obj(name, size, **kw)
        if not isc(size): st.assume(le(0, size))
        return o

    def uf(s, obj, ty):
        f = obj.ufs.get(ty)
        if f is None:
            dom = [z3.IntSort()] * (2 if obj.fam else 1)
            if ty in ('f32', 'f64'): rng = z3.RealSort()
            elif ty == 'i1': rng = z3.BoolSort()
            else: rng = z3.BitVecSort(int(ty[1:])) if s.bv else z3.IntSort()
            f = obj.ufs[ty] = z3.Function('%s.%s' % (obj.uid, ty), *dom, rng)
        return f

    def base_read(s, st, obj, idx, off, ty):
        if isinstance(off, int) and off in obj.cells and obj.cells[off][0] == ty:
            return obj.cells[off][1]
        if obj.base is not None:
            v = obj.base(st, idx, off, ty)
            if v is not None: return v
        if ty == 'ptr':
            if obj.ptrs is None: raise Unsupported('read of unknown pointer from %s+%s' % (obj.name, off))
            return obj.ptrs(st, idx, off)
        a = ([zi(idx)] if obj.fam else []) + [zi(off)]
        t = s.uf(obj, ty)(*a)
        if ty in ('f32', 'f64'): v = FV(t, ty == 'f64')
        elif ty == 'i1': v = t
        elif s.bv: v = IV(int(ty[1:]), t)
        else:
            n = int(ty[1:])
            lo, hi = (0, (1 << n) - 1) if (n == 8 or obj.unsigned) else (-(1 << n - 1), (1 << n - 1) - 1)
            key = ('rng', t.get_id())
            if key not in st.inst:
                st.inst.add(key); st.inst_keep = getattr(st, 'inst_keep', []) + [t]
                st.assume(And(le(lo, t), le(t, hi)))
            v = IV(n, t, lo, hi)
        if obj.onread:
            key = ('onread', obj.uid, ty, None if idx is None else zi(idx).get_id(), zi(off).get_id())
            if key not in st.inst:
                st.inst.add(key); s.pr.keep.append((idx, off, zi(off), zi(idx) if idx is not None else None))
                for f in obj.onread:
                    for fact in f(st, idx, off, ty, t) or ():
                        st.assume(fact)
        if obj in st.rq:
            s.pr.keep.append((idx, off))
            for f in st.rq[obj]: f(st, idx, off, ty)
        return v

    def merge(s, st, c, a, b):
        """value ite"""
        if isc(c): return a if c else b
        if isinstance(a, PV) and isinstance(b, PV):
            if a.obj is b.obj:
                return PV(a.obj, ite(c, a.off, b.off), None if a.idx is None else ite(c, a.idx, b.idx), ite(c, a.nullc, b.nullc) if a.obj is not None else False)
            if a.obj is None: return PV(b.obj, b.off, b.idx, ite(c, True, b.nullc))
            if b.obj is None: return PV(a.obj, a.off, a.idx, ite(c, a.nullc, True))
            raise ForkOn(c)
        if isinstance(a, IV) and isinstance(b, IV):
            if s.bv:
                if isc(a.t) and isc(b.t) and a.t == b.t: return a
                return IV(a.bits, z3.If(c, s.bvt(a), s.bvt(b)))
            return IV(a.bits, ite(c, a.t, b.t), min(a.lo, b.lo), max(a.hi, b.hi))
        if isinstance(a, FV): return FV(ite(c, zr(a.t), zr(b.t)), a.dbl)
        if isinstance(a, VV): return VV([s.merge(st, c, x, y) for x, y in zip(a.el, b.el)])
        if isinstance(a, (FnV,)) or isinstance(b, FnV): raise ForkOn(c)
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, z3.BoolRef): return ite(c, zb(a), zb(b))
        raise Unsupported('merge %r %r' % (a, b))

    def zero(s, ty):
        if ty == 'ptr': return NULL
        if ty in ('f32', 'f64'): return FV(Fraction(0), ty == 'f64')
        if ty == 'i1': return False
        return IV(int(ty[1:]), 0)

    def loc_same(s, st, i1, o1, t1, i2, o2, t2):
        """condition under which an access (i1,o1,t1) hits the store (i2,o2,t2)"""
        ic = True
        if i1 is not None or i2 is not None:
            ic = eq(i1, i2)
            if not isc(ic): ic = unz(z3.simplify(ic))
            if ic is False: return False
        d = const_diff(o1, o2)
        n1, n2 = TSIZE[t1], TSIZE[t2]
        if d is not None:
            if d >= n2 or -d >= n1: return False
            if d == 0 and t1 == t2: return ic
            if d == 0 and n1 == n2 and {t1, t2} <= {'i64', 'ptr'}: return ic
            if not isc(ic) and s.q(st, Not(ic)): return False
            raise Unsupported('mixed-width access %s/%s at offset distance %d' % (t1, t2, d))
        if t1 != t2:
            if 'i8' in (t1, t2):
                dis = Or(le(add(o1, n1), o2), le(add(o2, n2), o1))
                if s.q(st, dis): return False
                raise Unsupported('byte access over typed memory')
            return False   # strict aliasing
        return And(ic, eq(o1, o2))

    def read(s, st, obj, idx, off, ty, layer='top'):
        if layer == 'top': layer = st.mem.get(obj)
        if not isc(off):
            off = unz(off)
        # iterate down to the first definite layer
        stack = []
        val = None
        while True:
            if layer is None:
                val = s.base_read(st, obj, idx, off, ty); break
            k, d = layer.k, layer.d
            if k == 'st':
                c = s.loc_same(st, idx, off, ty, d['idx'], d['off'], d['ty'])
                if c is True: val = d['val']; break
                if c is not False: stack.append((c, d['val']))
            else:
                c = s.region_hit(st, layer, idx, off, ty)
                if c is not False:
                    if not isc(c):
                        c2 = unz(z3.simplify(c))
                        if isc(c2): c = c2
                        elif ty == 'ptr' or k in ('cp', 'fn'):
                            dd = s.decide(st, c, 700)
                            if dd is not None: c = dd
                    if c is True:
                        val = s.layer_val(st, obj, layer, idx, off, ty); break
                    if c is not False:
                        stack.append((c, (layer,)))
            layer = layer.prev
        for c, v in reversed(stack):
            if isinstance(v, tuple): v = s.layer_val(st, obj, v[0], idx, off, ty)
            val = s.merge_ptr(st, c, v, val)
        return val

    def merge_ptr(s, st, c, a, b):
        if isinstance(a, PV) and isinstance(b, PV) and a.obj is not b.obj:
            d = s.decide(st, c)
            if d is not None: return a if d else b
        return s.merge(st, c, a, b)

    def region_hit(s, st, layer, idx, off, ty):
        d = layer.d
        k = layer.k
        n = TSIZE[ty]
        if k in ('cp', 'fill'):
            ic = True if d.get('idx') is None and idx is None else eq(idx, d['idx'])
            lo = const_diff(off, d['off'])
            if lo is not None and lo < 0:
                if lo + n > 0 and not (isc(d['n']) and d['n'] == 0): raise Unsupported('partial overlap with block copy')
                return False
            if lo is not None and isc(d['n']):
                if lo >= d['n']: return False
                if lo + n > d['n']: raise Unsupported('partial overlap with block copy')
                return ic
            return And(ic, le(d['off'], off), le(add(off, n), add(d['off'], d['n'])))
        if k in ('hv', 'fn'):
            r = d.get('region')
            return True if r is None else r(idx, off)
        raise Unsupported(k)

    def layer_val(s, st, obj, layer, idx, off, ty):
        d = layer.d
        k = layer.k
        if k == 'cp':
            so = add(d['soff'], sub(off, d['off']))
            if not isc(so): so = unz(z3.simplify(so))
            return s.read(st, d['sobj'], d['sidx'], so, ty, layer=d['slayer'])
        if k == 'fill':
            b = d['byte']
            if isc(b.t) and b.t % 256 == 0: return s.zero(ty)
            if ty == 'i8': return b
            if isc(b.t) and ty[0] == 'i':
                n = int(ty[1:]); x = 0
                for _ in range(n // 8): x = x << 8 | (b.t % 256)
                return IV(n, x if s.bv else (x - (1 << n) if x >> (n - 1) else x))
            if ty == 'ptr': raise Unsupported('pointer from memset')
            return s.fresh(st, ty, 'fillv')
        if k == 'hv':
            v = s.base_read(st, d['src'], idx, off, ty)
            for qf in d['qf']: qf(st, obj, layer, idx, off, ty)
            return v
        if k == 'fn':
            return d['val'](st, idx, off, ty)

    def write(s, st, obj, idx, off, ty, val):
        if not isc(off): off = unz(z3.simplify(off))
        st.mem[obj] = Layer('st', st.mem.get(obj), idx=idx, off=off, ty=ty, val=val)

    def set_fn(s, st, obj, val, region=None):
        st.mem[obj] = Layer('fn', st.mem.get(obj), val=val, region=region)

    def havoc_q(s, st, obj, n, enc, formula):
        """obj gets new contents about which formula(st, co, before) holds for all coordinates co (n of them, at byte enc(*co));
        `before` is a state whose memory is the one before"""
        before = st.copy()
        src = Obj(obj.name + '.new', obj.size, kind=obj.kind); src.layout = obj.layout
        st.mem[obj] = Layer('hv', st.mem.get(obj), region=None, src=src, qf=[])
        snap = dict(st.mem); c = QCand('', None, n, enc, None); me = id(src)
        s.pr.keep.append([src, c])

        def inst(st2, o, l, idx, off, ty):
            co = resolve(s, st2, c, idx, off, None, None, None)
            if co is None: return
            key = ('hq', me, tuple(zi(x).get_id() for x in co))
            if key in st2.inst: return
            s.pr.keep.append([zi(x) for x in co])
            chain = [st2]
            while chain[-1].parent is not None: chain.append(chain[-1].parent)
            root = chain[-1]
            for x in chain: x.inst.add(key)
            save, coords, m = root.mem, root.coords, len(root.pc)
            root.mem = dict(snap); root.coords = list(st2.coords)
            try: g = formula(root, co, before)
            finally: root.mem = save; root.coords = coords
            root.assume(g)
            for x in chain[:-1]: x.pc += root.pc[m:]
        st.mem[obj].d['qf'].append(inst)

    def copy_mem(s, st, dst, src, n):
        if isc(n) and n == 0: return
        st.mem[dst.obj] = Layer('cp', st.mem.get(dst.obj), idx=dst.idx, off=dst.off, n=n, sobj=src.obj, sidx=src.idx, soff=src.off,
                                slayer=st.mem.get(src.obj))

    def fill_mem(s, st, dst, byte, n):
        if isc(n) and n == 0: return
        st.mem[dst.obj] = Layer('fill', st.mem.get(dst.obj), idx=dst.idx, off=dst.off, n=n, byte=byte)

    def valid(s, st, p, n, what, wr=False):
        """obligation: [p, p+n) lies inside a live (writable) object"""
        if isinstance(p, IV): raise Unsupported('integer used as pointer')
        if p.obj is None:
            if isc(n) and n == 0: return
            s.oblige(st, eq(n, 0), 'memory-safety', what + ': null pointer')
            return
        z = eq(n, 0)
        if isc(z): z = bool(z)
        if p.nullc is not False:
            s.oblige(st, Or(z, Not(p.nullc)), 'memory-safety', what + ': null pointer')
        dd = st.dead.get(p.obj)
        if dd is not None:
            s.oblige(st, Or(z, False if dd is True else Not(dd(p.idx))), 'memory-safety', what + ': use after free')
        size = p.obj.size if not callable(p.obj.size) else p.obj.size(p.idx)
        g = And(le(0, p.off), le(add(p.off, n), size))
        s.oblige(st, Or(z, g), 'memory-safety', what + ': inside %s' % p.obj.name)
        if wr and p.obj.ro:
            s.oblige(st, z, 'frame', what + ': write to read-only %s' % p.obj.name)

    def load(s, st, p, ty, mod):
        rt = mod.res(ty)
        if rt.k == 'vec':
            es = mod.size(rt.b)
            return VV([s.load(st, PV(p.obj, add(p.off, i * es), p.idx, p.nullc), rt.b, mod) for i in range(rt.a)])
        if rt.k in ('struct', 'arr'):
            if rt.k == 'struct':
                return AV([s.load(st, PV(p.obj, add(p.off, mod.field_off(rt, i)[0]), p.idx, p.nullc), f, mod) for i, f in enumerate(rt.a)])
            es = mod.size(rt.b)
            return AV([s.load(st, PV(p.obj, add(p.off, i * es), p.idx, p.nullc), rt.b, mod) for i in range(rt.a)])
        tn = tyname(rt)
        s.valid(st, p, TSIZE[tn], 'load')
        if p.obj is None: raise PathEnd()
        if tn == 'i1': tn = 'i8'
        v = s.read(st, p.obj, p.idx, p.off, tn)
        if rt.k == 'int' and rt.a == 1: return s.icmp(st, 'ne', v, IV(8, 0), I8)
        return v

    def store(s, st, p, ty, v, mod):
        rt = mod.res(ty)
        if rt.k == 'vec':
            es = mod.size(rt.b)
            for i in range(rt.a): s.store(st, PV(p.obj, add(p.off, i * es), p.idx, p.nullc), rt.b, v.el[i], mod)
            return
        if rt.k in ('struct', 'arr'):
            for i, x in enumerate(v.el):
                o, f = (mod.field_off(rt, i)) if rt.k == 'struct' else (i * mod.size(rt.b), rt.b)
                s.store(st, PV(p.obj, add(p.off, o), p.idx, p.nullc), f, x, mod)
            return
        tn = tyname(rt)
        s.valid(st, p, TSIZE[tn], 'store', wr=True)
        if p.obj is None: raise PathEnd()
        s.write(st, p.obj, p.idx, p.off, tn, v)

    # ------------------------------------------------------------ operands
    def glob(s, name, mod):
        key = name if name not in mod.internal and not name.startswith('.') and not name.startswith('__const') and not name.startswith('switch') else (mod.path, name)
        g = mod.globals.get(name)
        if g is None or g[1] is None:
            for m2 in s.mods:
                if name in m2.globals and m2.globals[name][1] is not None: mod, g = m2, m2.globals[name]; break
        if isinstance(key, str) and g is not None and key not in s.globs and g[2]: key = (mod.path, name)
        if key in s.globs: return s.globs[key]
        if g is None or g[1] is None:
            o = Obj('@' + name, 64, kind='global')
            o.extern = name
            if name in ('stdout', 'stderr', 'stdin'): o.cells[0] = ('ptr', PV(Obj(name, 216, kind='global'), 0))
        else:
            o = Obj('@' + name, mod.size(g[0]), kind='global', ro=g[2])
            if g[2]:
                s.init_const(o, 0, g[0], g[1], mod)
                s.const_table(o)
            else:
                o.layout = None
        s.globs[key] = o
        return o

    def init_const(s, o, off, ty, v, mod):
        t = mod.res(ty)
        if v[0] in ('zero', 'undef', 'null'):
            if t.k == 'struct':
                for i, f in enumerate(t.a): s.init_const(o, off + mod.field_off(t, i)[0], f, ('zero',), mod)
            elif t.k in ('arr', 'vec'):
                for i in range(t.a): s.init_const(o, off + i * mod.size(t.b), t.b, ('zero',), mod)
            else: o.cells[off] = (tyname(t), s.zero(tyname(t)))
        elif v[0] == 'str':
            for i, c in enumerate(v[1]): o.cells[off + i] = ('i8', IV(8, c))
        elif v[0] == 'agg':
            for i, (et, e) in enumerate(v[1]):
                fo, ft = mod.field_off(t, i) if t.k == 'struct' else (i * mod.size(t.b), t.b)
                s.init_const(o, off + fo, ft, e, mod)
        else:
            try: o.cells[off] = (tyname(t), s.val(None, v, t, mod, None))
            except Unsupported: pass

    def const_table(s, o):
        """symbolic index into a constant table"""
        done = {}

        def base(st, idx, off, ty):
            if isinstance(off, int): return None
            ents = [(k, v[1]) for k, v in o.cells.items() if v[0] == ty]
            if ty == 'ptr':
                r = None
                for k, v in ents:
                    dd = s.decide(st, eq(off, k), 300)
                    if dd is True: return v
                    if dd is None: raise ForkOn(eq(off, k))
                raise Unsupported('ptr table')
            if not ents: return None
            if ty not in done:
                f = s.uf(o, ty)
                done[ty] = [f(z3.IntVal(k)) == (s.bvt(v) if s.bv and isinstance(v, IV) else zr(v.t) if isinstance(v, FV) else zi(v.t)) for k, v in ents]
            key = ('tab', o.uid, ty)
            if key not in st.inst:
                st.inst.add(key)
                for fct in done[ty]: st.assume(fct)
            return None
        o.base = base

    def fconst(s, t):
        if t.startswith('0x'):
            h = t[2:]
            if h[0] in 'KLMH': raise Unsupported('x87 const')
            d = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
        else: d = float(t)
        if d != d or d in (float('inf'), float('-inf')):
            # special constant: opaque symbol
            nm = 'nan' if d != d else ('inf' if d > 0 else 'ninf')
            return z3.Real('fp.' + nm)
        return Fraction(d)

    def val(s, st, v, ty, mod, env):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        t = mod.res(ty) if ty.k == 'named' else ty
        if k == 'c':
            if t.k == 'int':
                if t.a == 1: return v[1] != '0'
                x = int(v[1])
                return s.const(t.a, x)
            if t.k in ('float', 'double'): return FV(s.fconst(v[1]), t.k == 'double')
            raise Unsupported('const %r' % t)
        if k == 'null': return NULL
        if k == 'g':
            f = s.find_fn(v[1], mod)
            if f is not None or v[1] in mod.decls: return FnV(v[1])
            return PV(s.glob(v[1], mod), 0)
        if k in ('undef', 'zero'):
            if t.k == 'vec': return VV([s.val(st, v, t.b, mod, env) for _ in range(t.a)])
            if t.k == 'struct': return AV([s.val(st, v, f, mod, env) for f in t.a])
            if t.k == 'arr': return AV([s.val(st, v, t.b, mod, env) for _ in range(t.a)])
            if k == 'undef' and t.k != 'ptr' and st is not None:
                return s.fresh(st, tyname(t), 'undef')
            return s.zero(tyname(t))
        if k == 'agg':
            el = [s.val(st, e, et, mod, env) for et, e in v[1]]
            return VV(el) if t.k == 'vec' else AV(el)
        if k == 'gep':
            return s.gep(st, v[1], s.val(st, v[2], PTR, mod, env), v[3], mod, env)
        if k == 'cast':
            x = s.val(st, v[3], v[2], mod, env)
            if v[1] in ('bitcast', 'addrspacecast'): return x
            raise Unsupported('const cast ' + v[1])
        raise Unsupported('operand %r' % (v,))

    def gep(s, st, bt, base, idx, mod, env):
        if not isinstance(base, PV): raise Unsupported('gep base %r' % (base,))
        off = base.off
        t = bt
        for n, (it, iv) in enumerate(idx):
            x = s.val(st, iv, it, mod, env)
            if n == 0:
                off = add(off, mul(s.off_of(st, x), mod.size(t)))
            else:
                r = mod.res(t)
                if r.k == 'struct':
                    o, t = mod.field_off(r, x.t); off = add(off, o)
                else:
                    off = add(off, mul(s.off_of(st, x), mod.size(r.b))); t = r.b
        if base.obj is None:
            if isc(off) and off == 0: return base
            return PV(None, off)
        return PV(base.obj, off, base.idx, base.nullc)

    # ------------------------------------------------------------ function lookup and calls
    def find_fn(s, name, mod):
        if mod is not None and name in mod.fns: return mod.fns[name]
        for m in s.mods:
            if name in m.fns and name not in m.internal: return m.fns[name]
        return None

    def get_fn(s, name):
        for m in s.mods:
            if name in m.fns: return m.fns[name]
        return None

    def run_function(s, fn, args, st):
        """execute fn's body symbolically -> list[Out]"""
        llir.parse_body(fn)
        env = {}
        if len(args) < len(fn.args): raise Unsupported('argument count of ' + fn.name)
        for (t, an, _), v in zip(fn.args, args): env[an] = v
        s.fnstack.append(fn.name)
        if len(s.fnstack) > 25: s.fnstack.pop(); raise Unsupported('inline depth (recursion?) at ' + fn.name)
        try:
            _, _, outs = s.run(fn, [(fn.order[0], None, 0, st, env)])
        finally:
            s.fnstack.pop()
        return outs

    base_apply = None

    def call(s, st, name, args, rty, mod, ins):
        """-> list[Out]"""
        c = s.contracts.get(name)
        if s.cur is not None:
            r = s.cur.intercept(s, st, name, args)
            if r is not None: return r
        if c is not None and (c.spec is not None or type(c).apply is not s.base_apply):
            r = c.apply(s, st, args)
            return [o if isinstance(o, Out) else Out('ret', o[0], o[1]) for o in r]
        m = s.models.get(name)
        if m is not None:
            r = m(s, st, args, ins, mod)
            if isinstance(r, list): return r
            return [Out('ret', st, r)]
        for pre, mm in s.prefix_models:
            if name.startswith(pre):
                r = mm(s, st, args, ins, mod, name)
                if isinstance(r, list): return r
                return [Out('ret', st, r)]
        fn = s.find_fn(name, mod)
        if fn is None:
            # definition may live in a source file not listed: pull it in
            src = s.locate(name)
            if src:
                s.mods.append(llir.compile_module(src)); s.files.append(src)
                fn = s.find_fn(name, mod)
        if fn is None: raise Unsupported('call to unmodelled external ' + name)
        s.inlined.add(name)
        return s.run_function(fn, args, st)

    _index = None

    def locate(s, name):
        import glob, re, os
        if Engine._index is None:
            idx = {}
            for f in sorted(glob.glob(os.path.join(llir.REPO, 'src/*.c'))):
                if f.endswith('nx_vector_gen.c'): continue
                for m in re.finditer(r'^[A-Za-z_][\w\s\*]*?\b(nx\w*|NX\w*)\s*\(', open(f, errors='replace').read(), re.M):
                    idx.setdefault(m.group(1), []).append(f)
            Engine._index = idx
        for f in Engine._index.get(name, []):
            m = llir.compile_module(f)
            if name in m.fns and name not in m.internal: return f
        return None

    # ------------------------------------------------------------ block execution
    def run(s, fn, items, loop=None):
        mod = fn.mod
        loops = fn.loops()
        work = list(items)
        backs, exits, outs = [], [], []
        n = 0

        def goto(to, frm, st, env):
            if loop is not None:
                if to == loop[0]: backs.append((to, frm, st, env)); return
                if to not in loop[1]: exits.append((to, frm, st, env)); return
            work.append((to, frm, 0, st, env))

        while work:
            n += 1
            if n > s.fork_limit: raise Unsupported('path explosion in ' + fn.name)
            if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
            b, prev, i, st, env = work.pop()
            if i == 0 and b in loops and (prev is None or prev not in loops[b]) and not (loop is not None and loop[0] == b):
                ex, ou = s.do_loop(fn, b, loops[b], prev, st, env)
                outs += ou
                for (to, frm, st2, env2) in ex: goto(to, frm, st2, env2)
                continue
            ins_l = fn.blocks[b]
            try:
                if i == 0:
                    i = s.enter_phis(fn, b, prev, st, env)
                while True:
                    ins = ins_l[i]
                    s.line = ins.line
                    op = ins.op
                    if op == 'br':
                        goto(ins.a[0], b, st, env); break
                    if op == 'cbr':
                        c = s.val(st, ins.a[0], I1, mod, env)
                        t, f = ins.a[1], ins.a[2]
                        if t == f: goto(t, b, st, env); break
                        if not isc(c): c = unz(z3.simplify(c))
                        if isc(c): goto(t if c else f, b, st, env); break
                        st2 = st.copy(); env2 = dict(env)
                        st.assume(c); st2.assume(Not(c))
                        fa, fb = s.pr.feasible(st), s.pr.feasible(st2)
                        if fa: goto(t, b, st, env)
                        if fb: goto(f, b, st2, env2)
                        break
                    if op == 'switch':
                        v = s.val(st, ins.a[0], ins.ty, mod, env)
                        conds = []
                        for cv, lab in ins.a[2]:
                            c = s.icmp(st, 'eq', v, s.val(st, cv, ins.ty, mod, env), ins.ty)
                            conds.append((c, lab))
                        rest = []
                        dest = {}
                        taken = False
                        for c, lab in conds:
                            if isc(c):
                                if c: goto(lab, b, st, env); taken = True; break
                                continue
                            dest.setdefault(lab, []).append(c); rest.append(c)
                        if taken: break
                        for lab, cs in dest.items():
                            st2 = st.copy(); st2.assume(Or(*cs))
                            if s.pr.feasible(st2): goto(lab, b, st2, dict(env))
                        st2 = st.copy()
                        for c in rest: st2.assume(Not(c))
                        if s.pr.feasible(st2): goto(ins.a[1], b, st2, dict(env))
                        break
                    if op == 'ret':
                        outs.append(Out('ret', st, s.val(st, ins.a[0], ins.ty, mod, env) if ins.a else None)); break
                    if op == 'unreachable': break
                    if op == 'call':
                        r = s.do_call(st, ins, env, mod)
                        rets = [o for o in r if o.kind == 'ret']
                        outs += [o for o in r if o.kind != 'ret']
                        if not rets: break
                        if len(rets) > 1:
                            for o in rets[1:]:
                                e2 = dict(env)
                                if ins.res is not None: e2[ins.res] = o.ret
                                work.append((b, prev, i + 1, o.st, e2))
                        st = rets[0].st
                        if ins.res is not None: env[ins.res] = rets[0].ret
                        i += 1
                        continue
                    s.exec1(st, ins, env, mod, fn)
                    i += 1
            except PathEnd:
                pass
            except ForkOn as e:
                st2 = st.copy(); env2 = dict(env)
                st.assume(e.cond); st2.assume(Not(e.cond))
                if s.pr.feasible(st): work.append((b, prev, i, st, env))
                if s.pr.feasible(st2): work.append((b, prev, i, st2, env2))
                # resume at the same instruction: phis already done when i>0
        return backs, exits, outs

    def enter_phis(s, fn, b, prev, st, env):
        ins_l = fn.blocks[b]
        vals = []
        i = 0
        while i < len(ins_l) and ins_l[i].op == 'phi':
            p = ins_l[i]
            for v, lab in p.a:
                if lab == prev:
                    vals.append((p.res, s.val(st, v, p.ty, fn.mod, env))); break
            else: raise IRError('phi')
            i += 1
        for k, v in vals: env[k] = v
        return i

    def do_call(s, st, ins, env, mod):
        callee = ins.x
        if callee[0] == 'g': name = callee[1]
        else:
            f = s.val(st, callee, PTR, mod, env)
            if not isinstance(f, FnV): raise Unsupported('indirect call')
            name = f.name
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'): return [Out('ret', st, None)]
        args = [s.val(st, v, t, mod, env) if t.k != 'metadata' else None for t, v in ins.a]
        snap = st.copy()
        try:
            return s.call(st, name, args, ins.ty, mod, ins)
        except ForkOn as e:
            # undo partial effects before the retry
            st.__dict__.update(snap.__dict__)
            raise

    def tr(s, st, t):
        """a real truncated to an integer, as a function of the real"""
        if isc(t): return int(t)
        t = zr(t); f = s.fpuf.setdefault('trunc', z3.Function('m.trunc', z3.RealSort(), z3.IntSort()))(t); r = z3.ToReal(f)
        key = ('tr', t.get_id())
        if key not in st.inst:
            st.inst.add(key); s.pr.keep.append(t)
            st.assume(z3.If(t >= 0, z3.And(f >= 0, r <= t, t < r + 1), z3.And(f <= 0, t <= r, r - 1 < t)))
        return f

    def f2i(s, st, t, n, signed):
        if isc(t): x = int(t)
        else:
            x = s.tr(st, t) if getattr(s.cur, 'named_trunc', False) else ite(le(0, t), z3.ToInt(t), sub(0, z3.ToInt(-t)))
        m = 1 << n
        lo, hi = (-m // 2, m // 2 - 1) if signed else (0, m - 1)
        if s.f2i_check: s.oblige(st, And(le(lo, x), le(x, hi)), 'float-to-int range')
        else:
            s.assumptions.add('float-to-integer conversions stay in range of the target type')
            st.assume(And(le(lo, x), le(x, hi)))
        return IV(n, x, lo, hi)

    def exec1(s, st, ins, env, mod, fn):
        op = ins.op
        V = lambda v, t: s.val(st, v, t, mod, env)
        if op in llir.BIN:
            t = ins.ty
            a, b = V(ins.a[0], t), V(ins.a[1], t)
            env[ins.res] = s.bin(st, op, a, b, ins.x, t)
        elif op == 'load':
            env[ins.res] = s.load(st, V(ins.a[0], PTR), ins.ty, mod)
        elif op == 'store':
            s.store(st, V(ins.a[1], PTR), ins.ty, V(ins.a[0], ins.ty), mod)
        elif op == 'getelementptr':
            env[ins.res] = s.gep(st, ins.ty, V(ins.a[0], PTR), ins.a[1], mod, env)
        elif op == 'alloca':
            n = 1
            if ins.a[0] is not None:
                n = s.off_of(st, V(ins.a[0][1], ins.a[0][0]))
            o = Obj('%s.%s' % (fn.name, ins.res), mul(n, mod.size(ins.ty)), kind='alloca')
            env[ins.res] = PV(o, 0)
        elif op == 'icmp':
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty)
            if isinstance(a, VV): env[ins.res] = VV([s.icmp(st, ins.x, x, y, ins.ty.b) for x, y in zip(a.el, b.el)])
            else: env[ins.res] = s.icmp(st, ins.x, a, b, ins.ty)
        elif op == 'fcmp':
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty)
            env[ins.res] = s.fcmp(ins.x, a.t, b.t)
        elif op in llir.CAST:
            env[ins.res] = s.cast(st, op, V(ins.a[0], ins.x), ins.x, ins.ty)
        elif op == 'fneg':
            a = V(ins.a[0], ins.ty)
            env[ins.res] = VV([FV(sub(0, x.t), x.dbl) for x in a.el]) if isinstance(a, VV) else FV(sub(Fraction(0), a.t), a.dbl)
        elif op == 'select':
            c = V(ins.a[0], ins.x)
            a, b = V(ins.a[1], ins.ty), V(ins.a[2], ins.ty)
            if not isc(c) and not isinstance(c, VV): c = unz(z3.simplify(c))
            env[ins.res] = s.merge(st, c, a, b)
        elif op == 'extractvalue':
            a = V(ins.a[0], ins.ty)
            for i in ins.x: a = a.el[i]
            env[ins.res] = a
        elif op == 'insertvalue':
            a = V(ins.a[0], ins.ty)
            def setp(v, path, x):
                if not path: return x
                el = list(v.el); el[path[0]] = setp(el[path[0]], path[1:], x); return AV(el)
            env[ins.res] = setp(a, ins.x, V(ins.a[1][1], ins.a[1][0]))
        elif op == 'extractelement':
            a = V(ins.a[0], ins.ty); i = V(ins.a[1][1], ins.a[1][0]); env[ins.res] = a.el[i.t]
        elif op == 'insertelement':
            a = V(ins.a[0], ins.ty); e = V(ins.a[1][1], ins.a[1][0]); i = V(ins.a[2][1], ins.a[2][0])
            el = list(a.el); el[i.t] = e; env[ins.res] = VV(el)
        elif op == 'shufflevector':
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty)
            m = V(ins.a[2][1], ins.a[2][0]); al = a.el + b.el
            env[ins.res] = VV([al[x.t if isc(x.t) else 0] for x in m.el])
        elif op == 'freeze':
            env[ins.res] = V(ins.a[0], ins.ty)
        else: raise Unsupported(op)

    def bin(s, st, op, a, b, fl, t):
        if isinstance(a, VV): return VV([s.bin(st, op, x, y, fl, t.b) for x, y in zip(a.el, b.el)])
        if op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return FV(s.fbin(st, op, a.t, b.t), a.dbl)
        if t.k == 'int' and t.a == 1:
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isc(b): return Not(a) if b else a
                if isc(a): return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, PV) or isinstance(b, PV): raise Unsupported('pointer arithmetic through integers')
        return s.ibin(st, op, a, b, fl, t.a)

    def fbin(s, st, op, x, y):
        h = getattr(s.cur, 'fbin', None)       # products a contract names
        if h is not None:
            r = h(s, st, op, x, y)
            if r is not None: return r
        if op == 'fadd': return add(x, y)
        if op == 'fsub': return sub(x, y)
        if op == 'fmul': return mul(x, y)
        if op == 'fdiv':
            if isc(x) and isc(y) and y != 0: return Fraction(x) / Fraction(y)
            if isc(y) and y != 0: return mul(x, Fraction(1) / Fraction(y))
            r = z3.RealVal(1) / zr(y)
            return r if isc(x) and x == 1 else mul(zr(x), r)
        raise Unsupported(op)

    def fcmp(s, pred, x, y):
        if pred == 'true' or pred == 'ord': return True
        if pred == 'false' or pred == 'uno': return False
        p = pred[1:]
        return {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': lambda a, b: lt(b, a), 'ge': lambda a, b: le(b, a)}[p](x, y)

    def cast(s, st, op, a, src, dst):
        if isinstance(a, VV):
            if op == 'bitcast': raise Unsupported('vector bitcast')
            return VV([s.cast(st, op, x, src.b, dst.b) for x in a.el])
        if isinstance(a, ClassIV) and op in ('zext', 'sext') and dst.k == 'int': return ClassIV(dst.a, a.t, a.cls)
        if op in ('fpext', 'fptrunc'):
            return FV(a.t, dst.k == 'double')
        if op in ('sitofp', 'uitofp'):
            if src.k == 'int' and src.a == 1: x = ite(a, 1, 0)
            elif s.bv: x = s.S(st, a) if op == 'sitofp' and isc(a.t) else a.t if isc(a.t) else z3.BV2Int(a.t, op == 'sitofp')
            else: x = s.S(st, a) if op == 'sitofp' else s.U(st, a)
            return FV(Fraction(x) if isc(x) else z3.ToReal(x), dst.k == 'double')
        if op in ('fptosi', 'fptoui'):
            v = s.f2i(st, a.t, dst.a, op == 'fptosi')
            return v
        if op == 'zext':
            if src.a == 1:
                if s.bv: return IV(dst.a, ite(a, 1, 0)) if isc(a) else IV(dst.a, z3.If(a, z3.BitVecVal(1, dst.a), z3.BitVecVal(0, dst.a)))
                return IV(dst.a, ite(a, 1, 0), 0, 1)
            if s.bv:
                return IV(dst.a, a.t) if isc(a.t) else s.mkbv(dst.a, z3.ZeroExt(dst.a - src.a, a.t))
            u = s.U(st, a)
            return IV(dst.a, u, 0 if u is not a.t else max(a.lo, 0), (1 << src.a) - 1 if u is not a.t else min(a.hi, (1 << src.a) - 1))
        if op == 'sext':
            if src.a == 1: return IV(dst.a, ite(a, -1, 0) if not s.bv else ite(a, (1 << dst.a) - 1, 0), -1, 0)
            if s.bv:
                return IV(dst.a, s.S(st, a) % (1 << dst.a)) if isc(a.t) else s.mkbv(dst.a, z3.SignExt(dst.a - src.a, a.t))
            u = s.S(st, a); h = 1 << src.a - 1
            return IV(dst.a, u, -h if u is not a.t else max(a.lo, -h), h - 1 if u is not a.t else min(a.hi, h - 1))
        if op == 'trunc':
            if dst.a == 1:
                if s.bv: return bool(a.t & 1) if isc(a.t) else unz(z3.simplify(z3.Extract(0, 0, a.t) == 1))
                return eq(imod(a.t, 2), 1)
            if s.bv: return IV(dst.a, a.t % (1 << dst.a)) if isc(a.t) else s.mkbv(dst.a, z3.Extract(dst.a - 1, 0, a.t))
            if isc(a.t):
                x = a.t % (1 << dst.a); return IV(dst.a, x - (1 << dst.a) if x >> (dst.a - 1) and dst.a != 8 else x)
            return IV(dst.a, a.t, a.lo, a.hi)
        if op == 'bitcast':
            if src.k == dst.k: return a
            raise Unsupported('bitcast %r->%r' % (src, dst))
        if op == 'ptrtoint':
            if a.obj is None: return IV(64, a.off)
            ad = getattr(a.obj, 'addr', None)
            if ad is None:
                ad = a.obj.addr = z3.Function(uid('addr.' + a.obj.name), z3.IntSort(), z3.IntSort()) if a.obj.fam else z3.Int(uid('addr.' + a.obj.name))
            if s.bv: raise Unsupported('ptrtoint with machine words')
            if a.obj.fam: ad = ad(zi(a.idx))
            st.assume(And(ad > 0, ad < (1 << 47)))
            if a.nullc is not False: return IV(64, ite(a.nullc, 0, add(ad, a.off)), 0, 1 << 63)
            return IV(64, add(ad, a.off), 0, 1 << 63)
        if op == 'inttoptr':
            if isc(a.t) and a.t == 0: return NULL
            raise Unsupported('inttoptr')
        raise Unsupported(op)

    # ------------------------------------------------------------ loops
    def do_loop(s, fn, H, body, prev, st, env):
        r = None
        n_ob = len(s.obls)
        allow = getattr(s.cur, 'unroll', True) if s.cur else True
        if allow == 'inner': allow = not any(h != H and h in body for h in fn.loops())
        if allow:
            try:
                return s.unroll(fn, H, body, prev, st.copy(), dict(env))
            except NonConcrete:
                del s.obls[n_ob:]
        return s.inv_loop(fn, H, body, prev, st, env)

    def unroll(s, fn, H, body, prev, st, env):
        nph = s.enter_phis(fn, H, prev, st, env)
        cur = [(H, prev, nph, st, env)]
        exits, outs = [], []
        budget = getattr(s.cur, 'fork_unroll', 0) if s.cur else 0
        loops = fn.loops()
        for it in range(s.max_unroll):
            nxt = []
            for item in cur:
                log = s.icmp_log; s.icmp_log = None
                try: backs, ex, ou = s.run(fn, [item], loop=(H, body))
                finally: s.icmp_log = log
                if backs and (ex or ou) and it >= budget:
                    if ex or any(o.kind == 'ret' for o in ou): raise NonConcrete()
                exits += ex; outs += ou
                for (to, frm, st2, env2) in backs:
                    k = s.enter_phis(fn, H, frm, st2, env2)
                    nxt.append((H, frm, k, st2, env2))
            if len(nxt) > 64: raise NonConcrete()
            cur = nxt
            if not cur: return exits, outs
        raise NonConcrete()

    # -- generic iteration state -------------------------------------------------
    def inv_loop(s, fn, H, body, prev, st0, env0):
        mod = fn.mod
        phis = [i for i in fn.blocks[H] if i.op == 'phi']
        st0 = st0.copy(); env0 = dict(env0)
        nph = s.enter_phis(fn, H, prev, st0, env0)
        entry = {p.res: env0[p.res] for p in phis}
        L = LoopCtx(s, fn, H, body, phis, entry, st0, env0)
        L.outer = list(s.loopk)
        s.quiet += 1
        log = s.icmp_log
        try:
            # 1. discover what an iteration modifies
            L.phase = 1
            for rnd in range(12):
                stg, envg, kg = L.generic()
                s.icmp_log = L.icmps = []
                backs, ex, ou = L.iterate(fn, H, prev, nph, stg, envg, body, kg)
                s.icmp_log = None
                if not L.absorb(backs): break
            else: raise Unsupported('loop modification set does not stabilise')
            # 2. closed forms for scalars with a constant step
            if L.find_affine(backs):
                stg, envg, kg = L.generic()
                s.icmp_log = L.icmps = []
                backs, ex, ou = L.iterate(fn, H, prev, nph, stg, envg, body, kg)
                s.icmp_log = None
                L.absorb(backs)
            # 3. Houdini
            L.phase = 3
            cands = L.candidates()
            dropped = L.drops()
            cands = [c for c in cands if c.name not in dropped]
            v0 = View(s, st0.copy(), dict(env0), 0, L)
            keep = []
            for c in cands:
                if getattr(c, 'alt', None) in keep: continue
                if L.holds(c, v0): keep.append(c)
                else:
                    dropped.add(c.name)
                    if DEBUG: print('  [init drop]', fn.name, c.name)
            cands = keep
            for rnd in range(14):
                if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
                stg, envg, kg = L.generic()
                L.assume_all(cands, stg, envg, kg)
                L.feas0 = stg
                s.icmp_log = L.icmps2 = []
                backs, ex, ou = L.iterate(fn, H, prev, nph, stg, envg, body, kg)
                s.icmp_log = None
                if L.absorb(backs): raise Unsupported('unstable loop body')
                bad = set()
                for (to, frm, stb, envb) in backs:
                    e2 = dict(envb); s.enter_phis(fn, H, frm, stb, e2)
                    vb = View(s, stb, e2, add(kg, 1), L)
                    for c in cands:
                        if c in bad: continue
                        if not L.holds(c, vb):
                            bad.add(c); dropped.add(c.name)
                            if DEBUG: print('  [pres drop]', fn.name, rnd, c.name)
                if not bad: break
                cands = [c for c in cands if c not in bad]
            else: raise Unsupported('invariant search did not converge')
        finally:
            s.quiet -= 1
            s.icmp_log = log
        # 4. the verified pass: obligations on
        if not s.quiet:
            for c in cands:
                s.obls.append(dict(fn=s.cur.name if s.cur else '?', at=fn.name, kind='invariant', what='%s: initially true and preserved' % c.name, line=fn.blocks[H][0].line, status='proved', t=0))
        stg, envg, kg = L.generic()
        L.assume_all(cands, stg, envg, kg)
        L.cands = cands
        if s.hooks.get('loop'): s.hooks['loop'](L, cands)
        log2 = s.icmp_log; s.icmp_log = None
        head = stg.copy(); henv = dict(envg)
        backs, ex, ou = L.iterate(fn, H, prev, nph, stg, envg, body, kg)
        s.icmp_log = log2
        if not s.quiet:
            L.check_heap(View(s, st0.copy(), dict(env0), 0, L), 'initially')
            for (to, frm, stb, envb) in backs:
                e2 = dict(envb); s.enter_phis(fn, H, frm, stb, e2)
                L.check_heap(View(s, stb.copy(), e2, add(kg, 1), L), 'preserved')
            L.check_termination(backs, henv, head, kg)
        return ex, ou


class LoopCtx:
    def __init__(L, eng, fn, H, body, phis, entry, st0, env0):
        L.e, L.fn, L.H, L.body, L.phis, L.entry, L.st0, L.env0 = eng, fn, H, body, phis, entry, st0, env0
        L.cells = {}     # (obj, off) -> ty   modified concrete cells
        L.arrays = set() # modified objects (whole content)
        L.affine = {}    # acc -> step
        L.varidx, L.varnull, L.gptr = set(), set(), {}
        L.polyptr = set()  # phi names / cells whose object varies
        L.icmps = []
        L.gfresh = set(); L.active = []
        L.dead = set()
        L.k = None

    # -- the generic state at the loop head
    def iterate(L, fn, H, prev, nph, stg, envg, body, kg):
        e = L.e
        L.visits = {}
        e.loopk.append((L, kg, envg))
        try:
            if L.phase == 1 and not e.shallow:
                e.shallow = True
                try: return e.run(fn, [(H, prev, nph, stg.copy(), dict(envg))], loop=(H, body))
                except (Unsupported, ForkOn, PathEnd, NonConcrete): pass
                finally: e.shallow = False
                L.visits = {}
            return e.run(fn, [(H, prev, nph, stg, envg)], loop=(H, body))
        finally: e.loopk.pop()

    def drops(L):
        """names of candidates already refuted for this loop under stronger assumptions on the enclosing loops"""
        e = L.e
        if e.shallow or not e.loopk: return set()
        Lo = e.loopk[-1][0]
        key = (tuple(e.fnstack), L.H)
        n = Lo.visits[key] = Lo.visits.get(key, 0) + 1
        root = e.loopk[0][0]
        if not hasattr(root, 'dropped'): root.dropped = {}
        path = tuple((x[0].fn.name, x[0].H) for x in e.loopk)
        return root.dropped.setdefault((key, n, path), set())

    def generic(L):
        e = L.e
        st = L.st0.copy(); env = dict(L.env0)
        k = z3.Int(uid('k'))
        L.gfresh = {k.decl().name()}
        st.assume(k >= 0)
        L.gvars = {('k',): k}
        L.gk = e.last_k = k

        def scal(acc, v0, name):
            """generic version of an integer/real term value"""
            if acc in L.affine: return add(v0, mul(L.affine[acc], k)), None
            return None, None

        def gen(acc, v, name):
            if isinstance(v, IV):
                base = e.canon(st, v)
                if acc in L.affine:
                    if e.bv: raise Unsupported('affine in bv')
                    t = add(base, mul(L.affine[acc], k)); L.gvars[acc] = t
                    return IV(v.bits, t)
                nv = e.fresh(st, 'i%d' % v.bits, name); L.gfresh.add(nv.t.decl().name()); L.gvars[acc] = nv.t
                return nv
            if isinstance(v, FV):
                nv = FV(z3.Real(uid(name)), v.dbl); L.gfresh.add(nv.t.decl().name()); L.gvars[acc] = nv.t
                return nv
            if isinstance(v, PV):
                if acc in L.polyptr:
                    sz = z3.Int(uid(name + '.size')); L.gfresh.add(sz.decl().name()); st.assume(sz >= 0)
                    o = Obj(name + '.any', sz, kind='heap', layout=v.obj.layout if v.obj is not None else None)
                    L.gfresh.add(o.uid)
                    off = z3.Int(uid(name + '.off')) if acc not in L.ptr0 else 0
                    if not isc(off): L.gfresh.add(off.decl().name())
                    nc = z3.Bool(uid(name + '.null')); L.gfresh.add(nc.decl().name())
                    L.gvars[acc] = off
                    L.polyobj = getattr(L, 'polyobj', {}); L.polyobj[acc] = o
                    if v.obj is not None: st.dead[v.obj] = True
                    return PV(o, off, None, nc)
                if v.obj is None: return v
                if acc in L.affine: off = add(v.off, mul(L.affine[acc], k))
                elif acc in L.fixed: off = v.off
                else:
                    off = z3.Int(uid(name + '.off')); L.gfresh.add(off.decl().name())
                L.gvars[acc] = off
                idx, nc = v.idx, v.nullc
                if acc in L.varidx:
                    idx = z3.Int(uid(name + '.idx')); L.gfresh.add(idx.decl().name())
                if acc in L.varnull:
                    nc = z3.Bool(uid(name + '.null')); L.gfresh.add(nc.decl().name())
                L.gptr[acc] = PV(v.obj, off, idx, nc)
                return L.gptr[acc]
            if isinstance(v, (bool, z3.BoolRef)):
                nb = z3.Bool(uid(name)); L.gfresh.add(nb.decl().name()); L.gvars[acc] = nb
                return nb
            if isinstance(v, FnV): return v
            raise Unsupported('loop-carried %r' % (v,))
        L.fixed = getattr(L, 'fixed', set())
        L.gptr = {}
        L.ptr0 = getattr(L, 'ptr0', set())
        for p in L.phis:
            env[p.res] = gen(('phi', p.res), L.entry[p.res], p.res)
        for obj in L.arrays:
            pf = e.cur.loop_ptrs(e, L, obj) if e.cur is not None else None
            src = Obj(obj.name + '.it', obj.size, fam=obj.fam, unsigned=obj.unsigned,
                      ptrs=(lambda st2, idx, off, pf=pf, obj=obj: L.ptr_at(pf, View(e, st2, env, k, L), off, obj)) if pf else None)
            kf = e.cur.loop_fields(e, L, obj) if obj.fam and e.cur is not None else None
            if kf: src.base = lambda st2, idx, off, ty, obj=obj, kf=kf: L.kept_field(st2, obj, kf, idx, off, ty)
            L.gfresh.add(src.uid)
            keepcells = [(o, off, ty) for (o, off), ty in L.cells.items() if o is obj]
            st.mem[obj] = Layer('hv', st.mem.get(obj), region=None, src=src, qf=[])
        for (obj, off), ty in L.cells.items():
            v0 = e.read(L.st0, obj, None, off, ty)
            st.mem[obj] = Layer('st', st.mem.get(obj), idx=None, off=off, ty=ty, val=gen(('cell', obj, off, ty), v0, '%s_%s' % (obj.name, off)))
        for o in L.dead:
            df = e.cur.loop_dead(e, L, o) if o.fam and e.cur is not None else None
            st.dead[o] = (lambda i, df=df: df(View(e, st, env, k, L), i)) if df else True
        L.gmem = dict(st.mem); L.gst = st
        return st, env, k

    def varies(L, acc, st, v):
        """does the family index or the nullness of a pointer differ from the generic state's? (then both must be generic)"""
        g = L.gptr.get(acc); grew = False
        if g is None or v.obj is None: return False
        def same(a, b):
            if a is b or isc(a) and isc(b) and a == b: return True
            if a is None or b is None: return False
            if isinstance(a, bool) and isinstance(b, bool): return a == b
            if isinstance(a, (bool, z3.BoolRef)): return z3.eq(zb(a), zb(b)) or L.e.pr.prove(st, zb(a) == zb(b), 2000) is True
            return z3.eq(zi(a), zi(b)) or L.e.pr.prove(st, eq(a, b), 2000) is True
        if acc not in L.varidx and not same(v.idx, g.idx): L.varidx.add(acc); grew = True
        if acc not in L.varnull and not same(v.nullc, g.nullc): L.varnull.add(acc); grew = True
        return grew

    def absorb(L, backs):
        """add newly observed modifications; True if the set grew"""
        e = L.e
        grew = False
        for (to, frm, st, env) in backs:
            e2 = dict(env); e.enter_phis(L.fn, L.H, frm, st, e2)
            for p in L.phis:
                v, v0 = e2[p.res], L.entry[p.res]
                if isinstance(v0, FnV) and not (isinstance(v, FnV) and v.name == v0.name): raise Unsupported('a function pointer that varies in a loop')
                if isinstance(v, PV) and ('phi', p.res) not in L.polyptr:
                    if v.obj is not v0.obj:
                        L.polyptr.add(('phi', p.res)); grew = True
                    elif L.varies(('phi', p.res), st, v): grew = True
            for obj, lay in st.mem.items():
                g = L.gmem.get(obj)
                if lay is g: continue
                if obj not in L.gmem and obj not in L.st0.mem and L.is_local(obj): continue
                x = lay
                while x is not None and x is not g:
                    if x.k == 'st' and isc(x.d['off']) and x.d['idx'] is None and obj not in L.arrays:
                        key = (obj, x.d['off'])
                        if key not in L.cells:
                            L.cells[key] = x.d['ty']; grew = True
                        ty = x.d['ty']
                    elif obj not in L.arrays:
                        L.arrays.add(obj); grew = True
                    x = x.prev
                if x is None and g is not None and obj not in L.arrays:
                    L.arrays.add(obj); grew = True
            for (obj, off), ty in list(L.cells.items()):
                if ty == 'ptr' and ('cell', obj, off, ty) not in L.polyptr:
                    v, v0 = e.read(st, obj, None, off, ty), e.read(L.st0, obj, None, off, ty)
                    if v.obj is not v0.obj:
                        L.polyptr.add(('cell', obj, off, ty)); L.ptr0.add(('cell', obj, off, ty)); grew = True
                    elif L.varies(('cell', obj, off, ty), st, v): grew = True
            for o in st.dead:
                if o not in L.st0.dead and o not in L.dead and not L.is_local(o) and o not in getattr(L, 'polyobj', {}).values():
                    L.dead.add(o); grew = True
        return grew

    def is_local(L, obj):
        """allocated inside the iteration"""
        return int(obj.uid.split('!')[1]) > int(L.gk.decl().name().split('!')[1])

    def accs(L):
        """scalar accessors"""
        out = []
        for p in L.phis:
            v = L.entry[p.res]
            if isinstance(v, (IV, FV)): out.append(('phi', p.res))
            elif isinstance(v, PV) and v.obj is not None or ('phi', p.res) in L.polyptr: out.append(('phi', p.res))
        for (o, off), ty in L.cells.items():
            if o in L.arrays: continue
            if ty == 'ptr':
                if ('cell', o, off, ty) in L.polyptr: out.append(('cell.size', o, off, ty))
                else: out.append(('cell', o, off, ty))
            elif ty != 'i1': out.append(('cell', o, off, ty))
        for a in list(L.polyptr):
            if a[0] == 'phi': out.append(('phi.size', a[1]))
        return out

    def is_fresh_term(L, t):
        """does t mention loop-generic symbols?"""
        if isc(t): return False
        seen = set(); stk = [t]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm in L.gfresh or nm.rsplit('.', 1)[0] in L.gfresh: return True
                if '!' in nm and L.later(nm): return True
            stk.extend(x.children())
        return False

    def later(L, nm):
        try: return int(nm.split('!')[1].split('.')[0]) > int(L.gk.decl().name().split('!')[1])
        except (ValueError, IndexError): return False

    def find_affine(L, backs):
        e = L.e
        if e.bv: return False
        found = False
        for acc in L.accs():
            if acc[0] in ('cell.size', 'phi.size') or acc in L.polyptr: continue
            step = None; ok = bool(backs)
            for (to, frm, st, env) in backs:
                e2 = dict(env); e.enter_phis(L.fn, L.H, frm, st, e2)
                gv = L.gvars.get(acc)
                if gv is None: ok = False; break
                # use raw representative for wrap-around types
                bt = View(e, st, e2, None, L).get(acc)
                if not isc(bt) and z3.is_bool(bt): ok = False; break
                d = simp(sub(bt, gv)) if not (isc(bt) and isc(gv)) else bt - gv
                if not isc(d): d = unz(z3.simplify(d, som=True))
                if not isc(d) and L.is_fresh_term(d): ok = False; break
                if step is None: step = d
                elif not (isc(step) and isc(d) and step == d or (not isc(step) and not isc(d) and step.eq(d))): ok = False; break
            if ok and step is not None:
                if isc(gv) or (not isc(gv) and z3.is_real(gv) and not isc(step)): continue
                if not isc(gv) and z3.is_real(gv): continue
                L.affine[acc] = step; found = True
        return found

    # -- candidate invariants
    def candidates(L):
        e = L.e
        out = []
        accs = L.accs()
        L.gmap0 = {a: g for a, g in L.gvars.items() if not isc(g) and z3.is_const(g)}
        L.icmps = [(x, y) for (x, y) in L.icmps if (isc(x) or z3.is_int(x)) and (isc(y) or z3.is_int(y)) and L.pure(x) and L.pure(y)
                   and (L.is_fresh_term(x) or L.is_fresh_term(y))]
        v0 = View(e, L.st0, L.env0, 0, L)
        ints = []
        for a in accs:
            t0 = v0.get(a)
            if isc(t0) and not isinstance(t0, (int,)): continue
            if not isc(t0) and (z3.is_bool(t0) or z3.is_real(t0) or z3.is_bv(t0)): continue
            ints.append((a, t0))
        if not e.bv:
            # 1. literals from comparisons in the loop
            seen = set()
            for (x, y) in L.icmps:
                x, y = unwrap(x), unwrap(y)
                key = (x if isc(x) else x.get_id(), y if isc(y) else y.get_id())
                if key in seen: continue
                seen.add(key)
                if not getattr(e.cur, 'data_conds', True) and not isc(x) and not isc(y) and x.num_args() and y.num_args(): continue
                for nm, f in (('<=', lambda a, b: le(a, b)), ('>=', lambda a, b: le(b, a))):
                    def mk(x=x, y=y, f=f):
                        return lambda v: f(L.subst(x, v), L.subst(y, v))
                    g = mk()
                    out.append(Cand('%s %s %s' % (short(x), nm, short(y)), g))
                    out.append(Cand('k=0 or %s %s %s' % (short(x), nm, short(y)), lambda v, g=g: Or(eq(v.k, 0), g(v))))
                    out[-1].alt = out[-2]
                    slack = (lambda v, x=x, y=y: le(L.subst(x, v), add(L.subst(y, v), 1))) if nm == '<=' else (lambda v, x=x, y=y: le(sub(L.subst(y, v), 1), L.subst(x, v)))
                    out.append(Cand('%s %s %s within 1' % (short(x), nm, short(y)), slack))
            # 2. monotonicity and bounds for non-affine scalars
            for a, t0 in ints:
                if a in L.affine: continue
                out.append(Cand('%s >= entry' % nm_(a), lambda v, a=a, t0=t0: le(t0, v.get(a))))
                out.append(Cand('%s <= entry' % nm_(a), lambda v, a=a, t0=t0: le(v.get(a), t0)))
                out.append(Cand('%s >= 0' % nm_(a), lambda v, a=a: le(0, v.get(a))))
                out.append(Cand('%s >= 1' % nm_(a), lambda v, a=a: le(1, v.get(a))))
            # 3. pairwise linear relations
            al = ints + [(('k',), 0)]
            for i in range(len(al)):
                for j in range(i + 1, len(al)):
                    (a, a0), (b, b0) = al[i], al[j]
                    if a in L.affine and (b in L.affine or b == ('k',)): continue
                    out.append(Cand('%s-%s const' % (nm_(a), nm_(b)), lambda v, a=a, b=b, a0=a0, b0=b0: eq(sub(v.get(a), a0), sub(v.get(b), b0))))
                    out.append(Cand('%s+%s const' % (nm_(a), nm_(b)), lambda v, a=a, b=b, a0=a0, b0=b0: eq(sub(v.get(a), a0), sub(b0, v.get(b)))))
                    out.append(Cand('%s<=%s rel' % (nm_(a), nm_(b)), lambda v, a=a, b=b, a0=a0, b0=b0: le(sub(v.get(a), a0), sub(v.get(b), b0))))
                    out.append(Cand('%s>=%s rel' % (nm_(a), nm_(b)), lambda v, a=a, b=b, a0=a0, b0=b0: le(sub(v.get(b), b0), sub(v.get(a), a0))))
                    out.append(Cand('%s<=%s' % (nm_(a), nm_(b)), lambda v, a=a, b=b: le(v.get(a), v.get(b))))
                    out.append(Cand('%s>=%s' % (nm_(a), nm_(b)), lambda v, a=a, b=b: le(v.get(b), v.get(a))))
        # nullness of varying pointers
        for a in L.polyptr:
            if a[0] == 'cell':
                out.append(Cand('%s non-null' % nm_(a), lambda v, a=a: Not(L.nullc(e.read(v.st, a[1], None, a[2], 'ptr')))))
            else:
                out.append(Cand('%s non-null' % nm_(a), lambda v, a=a: Not(L.nullc(v.env[a[1]]))))
        # frame: content outside what is written is as at loop entry, offered by templates
        if e.cur is not None:
            out += [c for c in e.cur.loop_cands(e, L) or [] if not (e.shallow and c.is_q)]
        return out

    @staticmethod
    def nullc(p): return True if p.obj is None else p.nullc

    def pure(L, t):
        """mentions only generic scalar symbols we can re-express in a view"""
        if isc(t): return True
        names = {}
        for a, g in L.gvars.items():
            if not isc(g) and z3.is_const(g): names[g.decl().name()] = a
        seen = set(); stk = [t]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm in names: pass
                elif nm in L.gfresh or nm.rsplit('.', 1)[0] in L.gfresh or L.later(nm): return False
            stk.extend(x.children())
        return True

    def subst(L, t, view):
        """term over the discovery round's generic symbols -> the same term in view"""
        if isc(t): return t
        return z3.substitute(t, *[(g, zi(view.get(a))) for a, g in L.gmap0.items()])

    def holds(L, c, view):
        e = L.e
        if not c.is_q:
            try: g = c.f(view)
            except (Unsupported, ForkOn, KeyError, TypeError, AttributeError, z3.Z3Exception): return False
            if isc(g): return bool(g)
            return e.pr.prove(view.st, g, 4000, lin=not getattr(c, 'strong', False)) is True
        st = view.st.copy()
        v2 = View(e, st, view.env, view.k, L)
        try:
            co = tuple(z3.Int(uid('sk')) for _ in range(c.n))
            st.coords.append(co)
            g = c.formula(v2, co)
        except (Unsupported, ForkOn, KeyError, TypeError) as ex:
            if DEBUG: print('  [cand]', c.name, type(ex).__name__, ex)
            return False
        r = e.pr.prove(st, g, 6000, lin=True)
        if DEBUG and r is not True: print('  [cand]', c.name, r, g if r is None else '')
        return r is True

    def assume_all(L, cands, st, env, k):
        e = L.e
        v = View(e, st, env, k, L)
        for c in cands:
            if not c.is_q:
                g = c.f(v)
                if isc(g):
                    if not g: st.assume(False)
                else: st.assume(g)
        for c in cands:
            if c.is_q:
                obj = c.objf(v)
                lay = st.mem.get(obj)
                x = lay
                while x is not None and x.k == 'st' and x.k != 'hv': x = x.prev
                snap = dict(st.mem)
                senv = dict(env)
                for hv in L.hv_layers(st, obj):
                    hv.d['qf'].append(L.qfact(c, snap, senv, k))
                if not L.hv_layers(st, obj):  # not changed by the loop, or the generic object behind a pointer that is: facts on its base, in this state and its successors
                    st.rq = dict(st.rq); st.rq[obj] = st.rq.get(obj, ()) + (L.qfact_base(c, snap, senv, k),)

    def hv_layers(L, st, obj):
        x = st.mem.get(obj); r = []
        g0 = L.st0.mem.get(obj)
        while x is not None and x is not g0:
            if x.k == 'hv': r.append(x)
            x = x.prev
        return r

    def qfact(L, c, snap, senv, k):
        e = L.e

        def inst(st, obj, layer, idx, off, ty):
            L.instantiate(c, snap, senv, k, st, idx, off)
        return inst

    def qfact_base(L, c, snap, senv, k):
        def inst(st, idx, off, ty):
            if c in L.active: return
            L.active.append(c)
            try: L.instantiate(c, snap, senv, k, st, idx, off)
            finally: L.active.pop()
        return inst

    def instantiate(L, c, snap, senv, k, st, idx, off):
        e = L.e
        co = resolve(e, st, c, idx, off, L, senv, k)
        if co is None: return
        key = ('q', id(c), zi(k).get_id(), tuple(zi(x).get_id() for x in co))
        if key in st.inst: return
        e.pr.keep.append([zi(x) for x in co] + [zi(k)])
        # the instance holds unconditionally: evaluate and assume it outside of guarded scopes
        chain = [st]
        while chain[-1].parent is not None: chain.append(chain[-1].parent)
        root = chain[-1]
        for x in chain: x.inst.add(key)
        save, coords = root.mem, root.coords
        n = len(root.pc)
        root.mem = dict(snap); root.coords = list(st.coords)
        try: g = c.formula(View(e, root, senv, k, L), co)
        finally: root.mem = save; root.coords = coords
        root.assume(g)
        for x in chain[:-1]: x.pc += root.pc[n:]

    def ptr_at(L, pf, v, off, obj):
        r = pf(v, off)
        if isinstance(r, tuple):
            if getattr(L.e, 'shape', 0):    # comparing shapes: a slot that has not been set differs from every declared pointer
                p = r[0]
                return PV(Obj('unset slot', 1), 0, None, zb(r[1])) if p.obj is None else PV(p.obj, ite(r[1], p.off, z3.Int(uid('unset'))), p.idx, p.nullc)
            L.e.oblige(v.st, r[1], 'memory-safety', 'only slots of %s that have been set are read' % obj.name, assume=False)
            return r[0]
        return r

    def kept_field(L, st, obj, kf, idx, off, ty):
        """value of a field the loop does not change: the one at its entry"""
        for o, t in kf:
            if t == ty and (isc(off) and off == o or not isc(off) and L.e.pr.prove(st, eq(off, o), 2000) is True): return L.e.read(st, obj, idx, o, ty, L.st0.mem.get(obj))
        if ty == 'ptr' and L.e.quiet: return L.e.read(st, obj, idx, off, ty, L.st0.mem.get(obj))
        return None

    # -- declared shape of pointer arrays and of the set of freed family members
    def check_heap(L, v, when):
        e = L.e
        if e.cur is None: return
        for obj in sorted(L.arrays, key=lambda o: o.uid):
            pf = e.cur.loop_ptrs(e, L, obj)
            if pf is None: continue
            j = z3.Int(uid('slot')); st = v.st.copy()
            st.assume(And(j >= 0, le(add(mul(j, 8), 8), obj.size)))
            def chk(st):
                b = pf(View(e, st, v.env, v.k, L), mul(8, j))
                if isinstance(b, tuple):
                    st.assume(b[1]); b = b[0]
                    if not e.pr.feasible(st): return
                e.quiet += 1; e.shape = getattr(e, 'shape', 0) + 1
                try: a = e.read(st, obj, None, mul(8, j), 'ptr')
                finally: e.quiet -= 1; e.shape -= 1
                e.oblige(st, ptr_eq(a, b), 'invariant', 'pointers held in %s: %s' % (obj.name, when), assume=False)
            e.forked(st, chk)
        for obj in sorted(L.arrays, key=lambda o: o.uid):
            for off, ty in (e.cur.loop_fields(e, L, obj) or ()) if obj.fam else ():
                i = z3.Int(uid('member')); st = v.st.copy(); st.assume(i >= 0)
                def chk(st, off=off, ty=ty, i=i, obj=obj):
                    a, b = e.read(st, obj, i, off, ty), e.read(st, obj, i, off, ty, L.st0.mem.get(obj))
                    e.oblige(st, ptr_eq(a, b) if ty == 'ptr' else eq(a.t, b.t), 'invariant', 'field %d of the members of %s is kept: %s' % (off, obj.name, when), assume=False)
                e.forked(st, chk)
        for o in sorted(L.dead, key=lambda o: o.uid):
            df = e.cur.loop_dead(e, L, o) if o.fam else None
            if df is None: continue
            i = z3.Int(uid('member')); st = v.st.copy()
            dd = st.dead.get(o)
            a = False if dd is None else True if dd is True else dd(i)
            e.oblige(st, eq(zb(a), zb(df(View(e, st, v.env, v.k, L), i))), 'invariant', 'freed members of %s: %s' % (o.name, when), assume=False)

    # -- termination
    def check_termination(L, backs, envg, stg, kg):
        e = L.e
        if not getattr(e.cur, 'total', True): return
        if not backs: return
        if e.bv: return
        meas = []
        for (x, y) in L.icmps:
            meas += [('%s - %s' % (short(y), short(x)), x, y), ('%s - %s' % (short(x), short(y)), y, x)]
        vg = View(e, stg, envg, kg, L)
        if hasattr(e.cur, 'measures'): meas = list(e.cur.measures(e, L)) + meas
        for m in meas:
            ok = True
            for (to, frm, stb, envb) in backs:
                e2 = dict(envb); e.enter_phis(L.fn, L.H, frm, stb, e2)
                vb = View(e, stb, e2, add(kg, 1), L)
                if len(m) == 3:
                    m0 = sub(L.subst(m[2], vg), L.subst(m[1], vg)); m1 = sub(L.subst(m[2], vb), L.subst(m[1], vb))
                else: m0, m1 = m[1](vg), m[1](vb)
                if e.pr.prove(stb, And(lt(m1, m0), le(0, m0)), 3000) is not True: ok = False; break
            if ok:
                e.obls.append(dict(fn=e.cur.name if e.cur else '?', at=L.fn.name, kind='termination', what='variant ' + m[0], line=L.fn.blocks[L.H][0].line, status='proved', t=0))
                return
        e.obls.append(dict(fn=e.cur.name if e.cur else '?', at=L.fn.name, kind='termination', what='no variant found', line=L.fn.blocks[L.H][0].line, status='unknown', t=0))


def ptr_eq(a, b):
    na = True if a.obj is None else a.nullc; nb = True if b.obj is None else b.nullc
    if a.obj is not b.obj or a.obj is None: return And(na, nb)
    same = And(eq(a.off, b.off), True if a.idx is None and b.idx is None else eq(a.idx, b.idx))
    return Or(And(na, nb), And(Not(na), Not(nb), same))


def resolve(e, st, c, idx, off, L, senv, k):
    """find coordinates of an access under c.enc"""
    if c.n == 1 and c.enc == 'idx': return (idx,)
    if c.n == 2 and c.enc == 'idx,off': return (idx, off)
    if c.n == 1 and isinstance(c.enc, int):
        sz = c.enc
        if sz == 1: return (off,)
        for co in st.coords:
            if len(co) == 1 and const_diff(mul(co[0], sz), off) == 0: return co
        if isc(off): return (off // sz,) if off % sz == 0 else None
        d = z3.simplify(off / sz) if False else None
        q = z3.Int(uid('ix'))
        st.assume(zi(off) == sz * q + z3.Int(uid('rm'))) if False else None
        t = div_exact(off, sz)
        return (t,) if t is not None else (idiv(off, sz),)
    for co in reversed(st.coords):
        if len(co) == c.n and const_diff(c.enc(*co), off) == 0: return co
    if c.n and not callable(off):
        import itertools
        ks = [x[1] for x in e.loopk]
        for co in itertools.permutations(ks, c.n):
            if const_diff(c.enc(*co), off) == 0: return co
    return None


def unwrap(t):
    """x for ((x + 2^(n-1)) mod 2^n) - 2^(n-1)"""
    if isc(t) or not z3.is_sub(t) and not z3.is_add(t): return t
    ch = t.children()
    if len(ch) != 2: return t
    m, c = ch
    if not z3.is_mod(m): m, c = c, m
    if not z3.is_mod(m) or not z3.is_int_value(c): return t
    h = abs(c.as_long())
    if not z3.is_int_value(m.arg(1)) or m.arg(1).as_long() != 2 * h: return t
    x = unz(z3.simplify(m.arg(0) - h))
    return x


def div_exact(t, n):
    """t/n when t is syntactically a sum of multiples of n"""
    t = z3.simplify(t, som=True)
    terms = t.children() if z3.is_add(t) else [t]
    out = []
    for x in terms:
        if z3.is_int_value(x):
            if x.as_long() % n: return None
            out.append(z3.IntVal(x.as_long() // n))
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)):
            c = x.arg(0).as_long()
            if c % n: return None
            r = x.children()[1:]
            p = r[0]
            for y in r[1:]: p = p * y
            out.append(p * (c // n) if c // n != 1 else p)
        else: return None
    r = out[0]
    for x in out[1:]: r = r + x
    return r


def short(x):
    return str(x).replace('\n', ' ')[:60]


def nm_(a):
    if a[0] in ('phi', 'phi.size', 'phi.idx'): return a[1] + ('' if a[0] == 'phi' else a[0][3:])
    if a[0] == 'k': return 'k'
    return '%s+%s%s' % (a[1].name, a[2], a[0][4:])
