"""Symbolic values, heap objects and states for the deductive verifier."""
import itertools, time, os
from fractions import Fraction
import re
import z3
from .llir import Unsupported, Ty

z3.set_param('memory_max_size', 3500)
_ctr = itertools.count()


def uid(p='v'): return '%s!%d' % (p, next(_ctr))


class ForkOn(Exception):
    def __init__(s, cond): s.cond = cond


# ------------------------------------------------------------------ terms (python const or z3)
def isc(x): return not isinstance(x, z3.ExprRef)


def simp(x):
    return x if isc(x) else unz(z3.simplify(x))


def unz(t):
    if isinstance(t, z3.ExprRef):
        if z3.is_int_value(t): return t.as_long()
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t


def zi(x): return z3.IntVal(x) if isc(x) else x
def zb(x): return z3.BoolVal(bool(x)) if isc(x) else x


def zr(x):
    if isc(x): return z3.RealVal(Fraction(x) if not isinstance(x, Fraction) else x) if not isinstance(x, Fraction) else z3.Q(x.numerator, x.denominator)
    return x


def _wrap(x):
    return x


def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return num(a, b)[0] + num(a, b)[1]


def num(a, b):
    """coerce python consts next to z3 arithmetic"""
    if isc(a):
        a = (z3.IntVal(a) if b.sort() == z3.IntSort() and not isinstance(a, Fraction) else zr(a))
    if isc(b):
        b = (z3.IntVal(b) if a.sort() == z3.IntSort() and not isinstance(b, Fraction) else zr(b))
    return a, b


def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    if not isc(a) and not isc(b) and a.eq(b): return 0
    x, y = num(a, b); return x - y


def mul(a, b):
    if isc(a) and isc(b): return a * b
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0: return 0
            if x == 1: return y
    x, y = num(a, b); return x * y


def lt(a, b):
    if isc(a) and isc(b): return a < b
    x, y = num(a, b); return x < y


def le(a, b):
    if isc(a) and isc(b): return a <= b
    x, y = num(a, b); return x <= y


def eq(a, b):
    if isc(a) and isc(b): return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)) or (not isc(b) and z3.is_bool(b)):
        if isc(a): return b if a else Not(b)
        if isc(b): return a if b else Not(a)
        return a == b
    if not isc(a) and z3.is_bv(a) or not isc(b) and z3.is_bv(b):
        r = (a == b)
        return unz(z3.simplify(r)) if not isinstance(r, bool) else r
    if not isc(a) and not isc(b) and a.eq(b): return True
    x, y = num(a, b); return x == y


def ne(a, b): return Not(eq(a, b))


def Not(a):
    if isc(a): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def And(*xs):
    xs = [x for x in xs if not (isc(x) and x)]
    if any(isc(x) for x in xs): return False
    if not xs: return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not (isc(x) and not x)]
    if any(isc(x) for x in xs): return True
    if not xs: return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Implies(a, b): return Or(Not(a), b)


def ite(c, a, b):
    if isc(c): return a if c else b
    if isc(a) and isc(b):
        if a == b and type(a) == type(b): return a
        if isinstance(a, bool): return c if a else z3.Not(c)
        if isinstance(a, Fraction) or isinstance(b, Fraction) or isinstance(a, float): return z3.If(c, zr(a), zr(b))
        return z3.If(c, zi(a), zi(b))
    if (not isc(a) and z3.is_bool(a)) or (not isc(b) and z3.is_bool(b)):
        return z3.If(c, zb(a), zb(b))
    if (not isc(a) and z3.is_bv(a)) or (not isc(b) and z3.is_bv(b)):
        s = (a if not isc(a) else b).size()
        if isc(a): a = z3.BitVecVal(a, s)
        if isc(b): b = z3.BitVecVal(b, s)
        return a if a.eq(b) else z3.If(c, a, b)
    x, y = num(a, b)
    if x.eq(y): return x
    return z3.If(c, x, y)


def idiv(a, b):
    """floor division by positive constant or (assumed positive) term"""
    if isc(a) and isc(b): return a // b
    return zi(a) / zi(b)


def imod(a, b):
    if isc(a) and isc(b): return a % b
    return zi(a) % zi(b)


def Max(a, b): return ite(le(a, b), b, a)
def Min(a, b): return ite(le(a, b), a, b)


_nlc = {}
def has_nl(f):
    k = f.get_id()
    r = _nlc.get(k)
    if r is not None and r[0].eq(f): return r[1]
    seen = set(); todo = [f]; out = False
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): out = False; break
        if z3.is_mul(t) and sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in t.children()) > 1: out = True; break
        todo += t.children()
    _nlc[k] = (f, out)
    return out


def fast_subst(pairs):
    n = len(pairs)
    fr = (z3.Ast * n)(*[p[0].as_ast() for p in pairs]); to = (z3.Ast * n)(*[p[1].as_ast() for p in pairs])
    ctx = z3.main_ctx()
    def f(t):
        return z3.z3._to_expr_ref(z3.Z3_substitute(ctx.ref(), t.as_ast(), n, fr, to), ctx)
    f.keep = pairs
    return f


def fast_apply(v, sb):
    """substitute inside the arguments of v (a function application or coefficient times one)"""
    if z3.is_mul(v) or v.num_args() == 0: return v if v.num_args() == 0 else v.arg(0) * fast_apply(v.arg(1), sb) if v.num_args() == 2 else v
    return v.decl()(*[sb(a) for a in v.children()])


def const_diff(a, b):
    """a-b if a compile-time constant, else None"""
    if isc(a) and isc(b): return a - b
    if not isc(a) and not isc(b) and a.eq(b): return 0
    d = unz(z3.simplify(zi(a) - zi(b), som=True))
    return d if isinstance(d, int) else None


# ------------------------------------------------------------------ values
class IV:
    """integer of `bits` bits: any representative mod 2^bits, with a static interval [lo,hi]"""
    __slots__ = ('bits', 't', 'lo', 'hi')

    def __init__(s, bits, t, lo=None, hi=None):
        s.bits = bits
        if isinstance(t, bool): t = int(t)
        s.t = t
        if isinstance(t, int): lo = hi = t
        s.lo = lo if lo is not None else -(1 << 200)
        s.hi = hi if hi is not None else (1 << 200)

    def __repr__(s): return 'IV%d(%s)' % (s.bits, s.t)


class ClassIV(IV):
    """entry of the character classification table: bits given by a function of the mask"""
    __slots__ = ('cls',)

    def __init__(s, bits, t, cls): IV.__init__(s, bits, t, 0, 65535); s.cls = cls


class PV:
    """pointer: object (None = null), optional family index, byte offset, nullness condition"""
    __slots__ = ('obj', 'idx', 'off', 'nullc')

    def __init__(s, obj, off=0, idx=None, nullc=False):
        s.obj, s.off, s.idx, s.nullc = obj, off, idx, nullc

    def __repr__(s): return 'PV(%s,%s,%s%s)' % (s.obj and s.obj.name, s.idx, s.off, '' if s.nullc is False else ',null:%s' % s.nullc)


class FV:
    """float value (exact real / uninterpreted)"""
    __slots__ = ('t', 'dbl')
    def __init__(s, t, dbl=False): s.t, s.dbl = t, dbl
    def __repr__(s): return 'FV(%s)' % (s.t,)


class FnV:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name


class VV:
    __slots__ = ('el',)
    def __init__(s, el): s.el = el


class AV:
    """first-class aggregate"""
    __slots__ = ('el',)
    def __init__(s, el): s.el = el


NULL = PV(None, 0)


def tyname(t):
    if t.k == 'int': return 'i%d' % t.a
    return {'float': 'f32', 'double': 'f64', 'ptr': 'ptr'}.get(t.k) or 'agg'


TSIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'ptr': 8}


# ------------------------------------------------------------------ objects and content layers
class Obj:
    def __init__(s, name, size, layout=None, kind='param', ro=False, fam=False, ptrs=None, onread=None, unsigned=False, base=None):
        s.name, s.size, s.layout, s.kind, s.ro, s.fam = name, size, layout, kind, ro, fam
        s.ptrs = ptrs            # fn(st, idx, off) -> PV for pointer cells of the base content
        s.onread = onread or []  # fns(st, idx, off, ty, val_term) -> iterable of facts
        s.base = base            # fn(st, idx, off, ty) -> value or None
        s.unsigned = unsigned
        s.uid = uid(name)
        s.ufs = {}
        s.cells = {}             # concrete initial cells off -> (ty, value)

    def __repr__(s): return 'Obj<%s>' % s.uid


class Layer:
    __slots__ = ('k', 'prev', 'd', 'id')
    def __init__(s, k, prev, **d): s.k, s.prev, s.d, s.id = k, prev, d, next(_ctr)


class State:
    def __init__(s, eng):
        s.eng = eng
        s.pc = []
        s.mem = {}
        s.dead = {}      # obj -> True | fn(idx)->Bool
        s.ghost = {}
        s.coords = []    # registered coordinate tuples for quantifier instantiation
        s.inst = set()
        s.rq = {}        # object -> facts instantiated when its original contents are read
        s.trace = []
        s.parent = None  # enclosing state of a guarded evaluation

    def copy(s):
        n = State(s.eng)
        n.pc = list(s.pc); n.mem = dict(s.mem); n.dead = dict(s.dead); n.ghost = dict(s.ghost)
        n.parent = s.parent; n.coords = list(s.coords); n.rq = s.rq; n.inst = set(s.inst); n.trace = list(s.trace)
        return n

    def assume(s, c):
        if isc(c):
            if not c: s.pc.append(z3.BoolVal(False))
            return s
        s.pc.append(c)
        return s


# ------------------------------------------------------------------ prover
class Prover:
    def __init__(s, timeout_ms=8000):
        s.timeout = timeout_ms
        s.time = 0.0
        s.calls = 0
        s.cache = {}
        s.nlc = {}
        s.skc = {}
        s.keep = []
        s.backends = {}

    def check(s, facts, timeout=None):
        """returns 'unsat' | ('sat', model) | 'unknown'"""
        t0 = time.time()
        s.calls += 1
        sol = z3.Solver()
        sol.set('timeout', timeout or s.timeout)
        sol.set('random_seed', 1)
        for f in facts: sol.add(f)
        r = sol.check()
        s.time += time.time() - t0
        if r == z3.unsat: return 'unsat'
        if r == z3.sat: return ('sat', sol.model())
        return 'unknown'

    def feasible(s, st, timeout=1500):
        key = tuple(f.get_id() for f in st.pc)
        if key in s.cache: return s.cache[key]
        for f in st.pc:
            if z3.is_false(f): return False
        r = s.linearized(st.pc, timeout) if timeout < 5000 else 'not applicable'
        if r == 'not applicable': r = s.check(st.pc, timeout)
        r = r != 'unsat'
        s.cache[key] = r
        s.keep.append(st.pc)
        return r

    def prove(s, st, goal, timeout=None, lin=False):
        """True / False / None(unknown); quick syntactic checks first; lin: give up when linearised products do not decide it"""
        return s.prove2(st, goal, timeout, lin)[0]

    def prove2(s, st, goal, timeout=None, lin=False):
        if isc(goal):
            if goal: return True, None
            r = s.check(st.pc, timeout)
            return (True, None) if r == 'unsat' else (False, r[1] if r != 'unknown' else None)
        g = z3.simplify(goal)
        if z3.is_true(g): return True, None
        key = (tuple(f.get_id() for f in st.pc), goal.get_id())
        if key in s.cache: return s.cache[key]
        r = s.linearized(st.pc + [z3.Not(goal)], timeout)
        if lin and r == 'unknown': return None, None
        if r != 'unsat': r = s.check(st.pc + [z3.Not(goal)], timeout)
        if r == 'unknown' and not lin and (timeout is None or timeout >= 4000):
            r = s.second(st.pc + [z3.Not(goal)], timeout)
        out = (True, None) if r == 'unsat' else ((None, None) if r == 'unknown' else (False, r[1]))
        s.cache[key] = out
        s.keep.append((list(st.pc), goal))
        return out

    def nlmuls(s, f):
        """(simplified fact, its non-linear integer products)"""
        k = f.get_id()
        if k in s.nlc: return s.nlc[k]
        if not has_nl(f): r = (f, ())
        else:
            g = z3.simplify(f, som=True)
            out = {}
            seen = set(); todo = [g]
            while todo:
                t = todo.pop()
                if t.get_id() in seen: continue
                seen.add(t.get_id())
                if z3.is_quantifier(t): out = None; break
                if z3.is_mul(t):
                    ch = t.children()
                    if z3.is_int_value(ch[0]) or z3.is_rational_value(ch[0]): ch = ch[1:]
                    if len(ch) > 1: out[t.get_id()] = (t, ch)
                todo += t.children()
            r = (g, tuple(out.values()) if out is not None else None)
        s.nlc[k] = r; s.keep.append((f, r))
        return r

    def linearized(s, facts, timeout=None):
        """products of unknowns abstracted to variables, with instances of order lemmas of multiplication; 'unsat' is conclusive"""
        fs = []; ms = {}
        for f in facts:
            g, m = s.nlmuls(f)
            if m is None: return 'not applicable'
            fs.append((g, bool(m)))
            for t, ch in m: ms[t.get_id()] = (t, ch)
        if not ms or len(ms) > 150: return 'not applicable'
        onlyreal = not any(z3.is_int(t) for t, _ in ms.values())
        prods = {}   # key of sorted factor ids -> (var, factors)
        sub_ = []
        for t, ch in ms.values():
            coef = 1
            c = t.children()
            if z3.is_int_value(c[0]): coef = c[0].as_long()
            elif z3.is_rational_value(c[0]): coef = c[0]
            ch = sorted(ch, key=s.skey if z3.is_real(t) else lambda x: x.get_id())
            key = tuple(x.get_id() for x in ch)
            if key not in prods:
                nmn = 'nl!%s' % '.'.join(map(str, key))
                prods[key] = (z3.Int(nmn) if z3.is_int(t) else z3.Function('nlr!%d' % len(ch), *([z3.RealSort()] * (len(ch) + 1)))(*ch), ch)
            sub_.append((t, prods[key][0] * coef if not (isinstance(coef, int) and coef == 1) else prods[key][0]))
        sb = fast_subst(sub_)
        if any(has_nl(c) for _, ch in prods.values() for c in ch):
            for _ in range(3):
                sub_ = [(t, z3.simplify(v) if False else fast_apply(v, sb)) for t, v in sub_]
                sb = fast_subst(sub_)
        fs = [sb(f) if h else f for f, h in fs]
        if onlyreal: return s.lincheck(fs, timeout, True)
        ls = []
        pl = list(prods.values())
        fac = {}     # common factor -> [(rest, var)]
        for v, ch in pl:
            if len(ch) == 2 and z3.is_int(v):
                a, b = ch
                ls.append(z3.Implies(z3.And(a >= 0, b >= 0), v >= 0))
                ls.append(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(v >= a, v >= b, v >= a + b - 1)))
                ls.append(z3.Implies(z3.Or(a == 0, b == 0), v == 0))
                ls.append(z3.Implies(a == 1, v == b)); ls.append(z3.Implies(b == 1, v == a))
                for x, y in ((a, b), (b, a)): fac.setdefault(y.get_id(), (y, []))[1].append((x, v))
        for y, lst in fac.values():
            lst = lst[:14]
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    (x1, v1), (x2, v2) = lst[i], lst[j]
                    ls.append(z3.Implies(x1 == x2, v1 == v2))
                    ls.append(z3.Implies(z3.And(y >= 0, x1 < x2), v1 + y <= v2))
                    ls.append(z3.Implies(z3.And(y >= 0, x2 < x1), v2 + y <= v1))
                    ls.append(z3.Implies(x2 == x1 + 1, v2 == v1 + y)); ls.append(z3.Implies(x1 == x2 + 1, v1 == v2 + y))
                    ls.append(z3.Implies(z3.And(y >= 0, x1 + 1 < x2), v1 + 2 * y <= v2))
                    ls.append(z3.Implies(z3.And(y >= 0, x2 + 1 < x1), v2 + 2 * y <= v1))
        # the factors may themselves contain abstracted products
        ls = [sb(l) for l in ls]
        return s.lincheck(fs + ls, timeout, onlyreal)

    def skey(s, t):
        """an order of factors that is the same for instances of one expression"""
        k = s.skc.get(t.get_id())
        if k is None:
            x = str(t) if t.num_args() < 3 else ''
            k = (t.decl().name(), len(re.sub(r'!\d+', '', x)), re.sub(r'[a-z_.]*!\d+', '', x), t.get_id())
            s.skc[t.get_id()] = k; s.keep.append(t)
        return k

    def lincheck(s, fs, timeout, onlyreal):
        r = s.check(fs, min(timeout or s.timeout, 4000))
        if r == 'unsat': s.backends['linearised products'] = s.backends.get('linearised products', 0) + 1; return 'unsat'
        return 'not applicable' if onlyreal else 'unknown'

    def second(s, facts, timeout=None):
        """other strategies: qfnia/nlsat tactic in z3, then cvc5"""
        t0 = time.time()
        try:
            for seed, arith in ((7, 2), (11, 6)):
                sol = z3.SolverFor('QF_UFNIA') if seed == 7 else z3.Solver()
                sol.set('timeout', timeout or s.timeout)
                try: sol.set('random_seed', seed)
                except z3.Z3Exception: pass
                for f in facts: sol.add(f)
                r = sol.check()
                if r == z3.unsat: return 'unsat'
                if r == z3.sat: return ('sat', sol.model())
            import subprocess, tempfile
            sol = z3.Solver()
            for f in facts: sol.add(f)
            txt = sol.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + txt)
            try:
                r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout or s.timeout), f.name], capture_output=True, text=True, timeout=(timeout or s.timeout) / 1000 + 5)
                s.backends['cvc5'] = s.backends.get('cvc5', 0) + 1
                if r.stdout.startswith('unsat'): return 'unsat'
            except subprocess.TimeoutExpired: pass
            finally: os.unlink(f.name)
            return 'unknown'
        finally:
            s.time += time.time() - t0
