"""Equivalence of large bit-vector terms by signature-guided sweeping:
every node gets a canonical form (adds as linear forms mod 2^n over atoms, other operators merged
by a local SMT proof over cut variables).  `equal(x, y)` -> True (proved), ('cex', assignment) or None."""
import random, time
import z3

NS = 4


class Sweep:
    def __init__(s, seed=1):
        s.rng = random.Random(seed)
        s.sig = {}; s.can = {}; s.keep = []
        s.byform = {}; s.bysig = {}
        s.cutv = {}; s.leafs = {}
        s.queries = 0; s.time = 0.0

    # canonical object of a node: ('lin', width, frozenset{(atomid, coeff)}, const)
    def order(s, t):
        out, stk = [], [(t, False)]
        seen = set()
        while stk:
            x, done = stk.pop()
            i = x.get_id()
            if done: out.append(x); continue
            if i in seen or i in s.can: continue
            seen.add(i)
            stk.append((x, True))
            if not s.leaf(x):
                for c in x.children(): stk.append((c, False))
        return out

    def leaf(s, x):
        return x.num_args() == 0 or x.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def evals(s, x):
        k = x.decl().kind()
        if z3.is_bv_value(x): return [x.as_long()] * NS
        if z3.is_true(x) or z3.is_false(x): return [int(z3.is_true(x))] * NS
        if s.leaf(x):
            s.leafs[x.get_id()] = x
            n = x.size() if z3.is_bv(x) else 1
            return [s.rng.getrandbits(n) for _ in range(NS)]
        cs = [s.sig[c.get_id()] for c in x.children()]
        n = x.size() if z3.is_bv(x) else 1
        m = (1 << n) - 1
        ch = x.children()
        sz = lambda c: c.size() if z3.is_bv(c) else 1
        sg = lambda v, w: v - (1 << w) if v >> (w - 1) else v
        out = []
        for j in range(NS):
            a = [c[j] for c in cs]
            if k == z3.Z3_OP_BADD: v = sum(a)
            elif k == z3.Z3_OP_BSUB: v = a[0] - sum(a[1:])
            elif k == z3.Z3_OP_BNEG: v = -a[0]
            elif k == z3.Z3_OP_BMUL:
                v = 1
                for y in a: v *= y
            elif k in (z3.Z3_OP_BAND, z3.Z3_OP_AND):
                v = m
                for y in a: v &= y
            elif k in (z3.Z3_OP_BOR, z3.Z3_OP_OR):
                v = 0
                for y in a: v |= y
            elif k in (z3.Z3_OP_BXOR, z3.Z3_OP_XOR):
                v = 0
                for y in a: v ^= y
            elif k in (z3.Z3_OP_BNOT, z3.Z3_OP_NOT): v = ~a[0]
            elif k == z3.Z3_OP_BSHL: v = a[0] << a[1] if a[1] < n else 0
            elif k == z3.Z3_OP_BLSHR: v = a[0] >> a[1] if a[1] < n else 0
            elif k == z3.Z3_OP_BASHR: v = sg(a[0], n) >> min(a[1], n)
            elif k == z3.Z3_OP_CONCAT:
                v = 0
                for y, c in zip(a, ch): v = v << sz(c) | y
            elif k == z3.Z3_OP_EXTRACT:
                hi, lo = x.params(); v = a[0] >> lo
            elif k == z3.Z3_OP_ZERO_EXT: v = a[0]
            elif k == z3.Z3_OP_SIGN_EXT: v = sg(a[0], sz(ch[0]))
            elif k == z3.Z3_OP_ROTATE_LEFT: r = x.params()[0] % n; v = a[0] << r | a[0] >> (n - r)
            elif k == z3.Z3_OP_ROTATE_RIGHT: r = x.params()[0] % n; v = a[0] >> r | a[0] << (n - r)
            elif k == z3.Z3_OP_EXT_ROTATE_LEFT: r = a[1] % n; v = a[0] << r | a[0] >> (n - r)
            elif k == z3.Z3_OP_EXT_ROTATE_RIGHT: r = a[1] % n; v = a[0] >> r | a[0] << (n - r)
            elif k == z3.Z3_OP_ITE: v = a[1] if a[0] else a[2]
            elif k == z3.Z3_OP_EQ: v = int(a[0] == a[1])
            elif k == z3.Z3_OP_ULT: v = int(a[0] < a[1])
            elif k == z3.Z3_OP_ULEQ: v = int(a[0] <= a[1])
            elif k == z3.Z3_OP_SLT: v = int(sg(a[0], sz(ch[0])) < sg(a[1], sz(ch[1])))
            elif k == z3.Z3_OP_SLEQ: v = int(sg(a[0], sz(ch[0])) <= sg(a[1], sz(ch[1])))
            else: raise KeyError('sweep: operator %s' % x.decl().name())
            out.append(v & m)
        return out

    def lin_of(s, x):
        return s.can[x.get_id()]

    def add_lin(s, n, parts):
        acc, c = {}, 0
        m = (1 << n) - 1
        for (at, k0), w in parts:
            c = (c + k0 * w) & m
            for a, q in at:
                v = (acc.get(a, 0) + q * w) & m
                if v: acc[a] = v
                else: acc.pop(a, None)
        return (frozenset(acc.items()), c)

    def node(s, x):
        i = x.get_id()
        sg = tuple(s.evals(x)); s.sig[i] = sg; s.keep.append(x)
        k = x.decl().kind()
        if not z3.is_bv(x):
            s.can[i] = ('b',); return
        n = x.size()
        if z3.is_bv_value(x): s.can[i] = (frozenset(), x.as_long()); return
        ch = x.children()
        if k == z3.Z3_OP_BADD: s.can[i] = s.add_lin(n, [(s.can[c.get_id()], 1) for c in ch]); return
        if k == z3.Z3_OP_BSUB: s.can[i] = s.add_lin(n, [(s.can[c.get_id()], 1 if j == 0 else -1) for j, c in enumerate(ch)]); return
        if k == z3.Z3_OP_BNEG: s.can[i] = s.add_lin(n, [(s.can[ch[0].get_id()], -1)]); return
        # atom: merge with an equal earlier atom
        key = (n, sg)
        if not s.leaf(x):
            if len(set(sg)) == 1 and s.prove(x, z3.BitVecVal(sg[0], n)): s.can[i] = (frozenset(), sg[0]); return
            for y in s.bysig.get(key, []):
                if s.leaf(y) or s.small(x) and s.small(y) or True:
                    if s.prove(x, y): s.can[i] = s.can[y.get_id()]; return
        s.bysig.setdefault(key, []).append(x)
        s.can[i] = (frozenset([(i, 1)]), 0)

    def small(s, x): return True

    def cut(s, x, depth, memo):
        """x with sums and deep subterms replaced by cut variables named by canonical form"""
        i = x.get_id()
        if i in memo: return memo[i]
        k = x.decl().kind()
        if x.num_args() == 0 and not s.leaf(x) or z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x): r = x
        elif (s.leaf(x) or k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or depth <= 0) and z3.is_bv(x):
            c = (x.size(), s.can[i]) if i in s.can else None
            if c is None: r = x
            elif not c[1][0]: r = z3.BitVecVal(c[1][1], x.size())
            else:
                r = s.cutv.get(c)
                if r is None: r = s.cutv[c] = z3.BitVec('cut!%d' % len(s.cutv), x.size())
        elif s.leaf(x): r = x
        else:
            r = x.decl()(*[s.cut(c, depth - 1, memo) for c in x.children()])
        memo[i] = r
        return r

    def prove(s, x, y):
        t0 = time.time()
        for d in (14,):
            a, b = s.cut(x, d, {}), s.cut(y, d, {})
            if a.eq(b): return True
            sol = z3.Solver(); sol.set('timeout', 4000); sol.add(a != b)
            s.queries += 1
            r = sol.check()
            if r == z3.unsat: s.time += time.time() - t0; return True
        s.time += time.time() - t0
        return False

    def load(s, t):
        for x in s.order(t): s.node(x)

    def equal(s, x, y):
        s.load(x); s.load(y)
        if s.can[x.get_id()] == s.can[y.get_id()]: return True
        a, b = s.sig[x.get_id()], s.sig[y.get_id()]
        for j in range(NS):
            if a[j] != b[j]:
                return ('cex', {str(l): s.sig[i][j] for i, l in s.leafs.items()})
        return True if s.prove(x, y) else None
