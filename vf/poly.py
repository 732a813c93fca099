"""Equality of real terms by normal form: rational functions over atoms, modulo r*r = x for r = sqrt(x)
and sin^2 + cos^2 = 1. A decision step in front of the SMT solver; every use of a denominator or of a square
root asks the solver for denominator != 0 or radicand >= 0."""
from fractions import Fraction
import z3

LIMIT = 60000


class TooBig(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, k in b: d[x] = d.get(x, 0) + k
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 20: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > LIMIT: raise TooBig()
    return r


ONE = {(): Fraction(1)}


class Norm:
    def __init__(s, e, st):
        s.e, s.st = e, st
        s.cache, s.atoms, s.keep = {}, {}, []
        s.rule = {}          # atom -> polynomial equal to its square
        s.dens = {}          # frozen polynomial -> index
        s.denp = []
        s.conds = []         # z3 conditions that must hold
        for t, x in (st.ghost.get('squares') or ()):      # precondition t*t == x, t a symbol
            (n, d) = s.conv(x); a = s.conv(t)[0]
            s.rule[next(iter(a))[0][0]] = n

    def atom(s, key):
        if key not in s.atoms: s.atoms[key] = len(s.atoms)
        return s.atoms[key]

    def var(s, a): return {((a, 1),): Fraction(1)}

    def red(s, p):
        """apply square rules until none applies"""
        for _ in range(50):
            out = {}; ch = False
            for m, c in p.items():
                hit = next(((x, k) for x, k in m if k >= 2 and x in s.rule), None)
                if hit is None:
                    v = out.get(m, 0) + c
                    if v: out[m] = v
                    else: out.pop(m, None)
                else:
                    ch = True
                    x, k = hit
                    rest = tuple((y, j) if y != x else (y, k - 2) for y, j in m if y != x or k > 2)
                    for n, d in s.rule[x].items():
                        kk = mmul(rest, n); v = out.get(kk, 0) + c * d
                        if v: out[kk] = v
                        else: out.pop(kk, None)
            p = out
            if len(p) > LIMIT: raise TooBig()
            if not ch: return p
        return p

    # rational functions: (numerator, {denominator index: exponent})
    def conv(s, t):
        if not isinstance(t, z3.ExprRef): return ({(): Fraction(t)} if t else {}, ())
        stack = [t]
        while stack:
            x = stack[-1]; i = x.get_id()
            if i in s.cache: stack.pop(); continue
            kids = s.kids(x)
            todo = [c for c in kids if c.get_id() not in s.cache]
            if todo: stack.extend(todo); continue
            s.keep.append(x)
            s.cache[i] = s.one(x)
            stack.pop()
        return s.cache[t.get_id()]

    def kids(s, x):
        if z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_algebraic_value(x): return []
        if z3.is_add(x) or z3.is_mul(x) or z3.is_sub(x) or z3.is_div(x): return x.children()
        if x.decl().kind() == z3.Z3_OP_UMINUS: return x.children()
        if z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(x.arg(0)): return x.children()
        return []

    def radd(s, a, b, sg=1):
        (n, d), (m, f) = a, b
        if d == f: return (padd(n, m, sg), d)
        dd, ff = dict(d), dict(f)
        com = {k: max(dd.get(k, 0), ff.get(k, 0)) for k in set(dd) | set(ff)}
        for k, v in com.items():
            for _ in range(v - dd.get(k, 0)): n = pmul(n, s.denp[k])
            for _ in range(v - ff.get(k, 0)): m = pmul(m, s.denp[k])
        return (padd(n, m, sg), tuple(sorted(com.items())))

    def rmul(s, a, b):
        (n, d), (m, f) = a, b
        dd = dict(d)
        for k, v in f: dd[k] = dd.get(k, 0) + v
        return (pmul(n, m), tuple(sorted(dd.items())))

    def one(s, x):
        C = lambda c: s.cache[c.get_id()]
        if z3.is_rational_value(x): return ({(): Fraction(x.numerator_as_long(), x.denominator_as_long())} if x.numerator_as_long() else {}, ())
        if z3.is_int_value(x): return ({(): Fraction(x.as_long())} if x.as_long() else {}, ())
        if z3.is_add(x):
            r = C(x.arg(0))
            for c in x.children()[1:]: r = s.radd(r, C(c))
            return r
        if z3.is_sub(x):
            r = C(x.arg(0))
            for c in x.children()[1:]: r = s.radd(r, C(c), -1)
            return r
        if x.decl().kind() == z3.Z3_OP_UMINUS: return s.rmul(({(): Fraction(-1)}, ()), C(x.arg(0)))
        if z3.is_mul(x):
            r = C(x.arg(0))
            for c in x.children()[1:]: r = s.rmul(r, C(c))
            return r
        if z3.is_div(x):
            a, (n, d) = C(x.arg(0)), C(x.arg(1))
            n = s.red(n)
            if not n: raise TooBig()
            if len(n) == 1 and () in n:
                inv = ({(): 1 / n[()]}, ())
            else:
                lead = n[min(n)]
                key = frozenset((m, c / lead) for m, c in n.items())
                if key not in s.dens:
                    s.dens[key] = len(s.denp); s.denp.append({m: c / lead for m, c in n.items()})
                inv = ({(): 1 / lead}, ((s.dens[key], 1),))
            s.conds.append(x.arg(1) != 0)
            if d:                      # 1/(n/d) = d/n
                p = ONE
                for k, v in d:
                    for _ in range(v): p = pmul(p, s.denp[k])
                inv = s.rmul((p, ()), inv)
            return s.rmul(a, inv)
        if s.kids(x):                  # unary uninterpreted function of a real
            nm = x.decl().name(); (n, d) = C(x.arg(0)); n = s.red(n)
            sg = 1
            if nm in ('m.sin', 'm.cos') and n and n[min(n)] < 0:
                n = {m: -c for m, c in n.items()}; sg = -1 if nm == 'm.sin' else 1
            key = (frozenset(n.items()), d)
            a = s.atom((nm, key))
            if nm == 'm.sqrt' and not d and a not in s.rule:
                if not all(c > 0 and all(k % 2 == 0 for _, k in m) for m, c in n.items()): s.conds.append(x.arg(0) >= 0)
                s.rule[a] = n
            if nm == 'm.sin':
                b = s.atom(('m.cos', key))
                s.rule[a] = padd(ONE, {((b, 2),): Fraction(1)}, -1)
            return (padd({}, s.var(a), sg), ())
        y = z3.simplify(x); s.keep.append(y)
        return (s.var(s.atom(('t', y.get_id()))), ())


def equal(e, st, a, b):
    """True when a = b by normal form (denominators and radicands checked by the solver), None otherwise"""
    n = Norm(e, st)
    try:
        x = n.conv(a); y = n.conv(b)
        num, den = n.radd(x, y, -1)
        num = n.red(num)
    except (TooBig, RecursionError): return None
    if num: return None
    seen = set()
    for c in n.conds:
        if c.get_id() in seen: continue
        seen.add(c.get_id())
        if not e.q(st, c, 4000): return None
    return True
