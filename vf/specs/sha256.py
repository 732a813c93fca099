"""nx_hash_sha256.c and nx_memncpy_multi under contract (FIPS 180-4)."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, View
from ..sweep import Sweep
from . import bit_ops

FILES = ['src/nx_hash_sha256.c', 'src/nx_string.c'] + bit_ops.FILES
U32 = 1 << 32


def primes(n):
    ps, c = [], 2
    while len(ps) < n:
        if all(c % p for p in ps): ps.append(c)
        c += 1
    return ps


def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo


KC = [iroot(p << 96, 3) & 0xffffffff for p in primes(64)]      # FIPS 180-4 4.2.2
H0 = [iroot(p << 64, 2) & 0xffffffff for p in primes(8)]       # FIPS 180-4 5.3.3


def compress_bv(H, by):
    rr = z3.RotateRight
    sm = lambda x: x
    W = [z3.Concat(*by[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 64):
        s1 = rr(W[t - 2], 17) ^ rr(W[t - 2], 19) ^ z3.LShR(W[t - 2], 10)
        s0 = rr(W[t - 15], 7) ^ rr(W[t - 15], 18) ^ z3.LShR(W[t - 15], 3)
        W.append(sm(s1 + W[t - 7] + s0 + W[t - 16]))
    a, b, c, d, e, f, g, h = H
    for t in range(64):
        T1 = h + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + z3.BitVecVal(KC[t], 32) + W[t]
        T2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c))
        h, g, f, e, d, c, b, a = g, f, e, sm(d + T1), c, b, a, sm(T1 + T2)
    return [sm(x + y) for x, y in zip(H, (a, b, c, d, e, f, g, h))]


CW = [z3.Function('sha.C%d' % w, *([z3.IntSort()] * 73)) for w in range(8)]   # compression function, abstract at call sites


def sweep_oblige(e, sw, x, y, what):
    import time
    t0 = time.time()
    r = sw.equal(x, y)
    rec = dict(fn=e.cur.name, at=e.fnstack[-1], kind='post', what=what, line=None, status='proved' if r is True else 'refuted' if r else 'unknown', t=round(time.time() - t0, 3))
    if r is not True: rec['model'] = str(r)[:4000]; rec['case'] = e.case
    e.obls.append(rec)


class Block(Contract):
    """H' = compress(H, block); the block is not written"""
    name = 'nx_sha256_process_block'; bv = True; lazy = True
    def setup(s, e, case):
        b = B(e)
        blk = b.array('block', 'i8', 64); H = b.array('H', 'i32', 8)
        return b.st, [PV(blk, 0), PV(H, 0)], b.aux(roots={blk, H})
    def spec(s, e, st, args):
        bp, hp = args
        e.valid(st, bp, 64, 'pre: 64-byte block'); e.valid(st, hp, 32, 'pre: 8 state words', wr=True)
        by = [e.read(st, bp.obj, bp.idx, add(bp.off, i), 'i8') for i in range(64)]
        H = [e.read(st, hp.obj, hp.idx, add(hp.off, 4 * w), 'i32') for w in range(8)]
        if e.bv:
            r = compress_bv([e.bvt(x) for x in H], [e.bvt(x) for x in by])
            nv = [e.mkbv(32, x) for x in r]
        else:
            Hu = [e.U(st, x) for x in H]; bu = [e.U(st, x) for x in by]
            nv = None
            if hasattr(e.cur, 'block_lemma'): nv = e.cur.block_lemma(e, st, Hu, bu)
            if nv is None:
                nv = [CW[w](*[zi(x) for x in Hu + bu]) for w in range(8)]
                for x in nv: st.assume(And(x >= 0, x < U32))
            nv = [IV(32, x, 0, U32 - 1) for x in nv]
        for w in range(8): e.write(st, hp.obj, hp.idx, add(hp.off, 4 * w), 'i32', nv[w])
        return [(st, None)]
    def compare(s, e, st0, co, so, args, aux):
        st = co.st
        sw = Sweep()
        for w in range(8):
            x = e.bvt(e.read(st, args[1].obj, None, 4 * w, 'i32')); y = e.bvt(e.read(st_with(st, so.st), args[1].obj, None, 4 * w, 'i32'))
            sweep_oblige(e, sw, x, y, 'state word %d = FIPS 180-4 compression' % w)
        for i in range(64):
            x = e.bvt(e.read(st, args[0].obj, None, i, 'i8')); y = e.bvt(e.read(st_with(st, st0), args[0].obj, None, i, 'i8'))
            e.oblige(st, x == y, 'frame', 'block byte %d unchanged' % i)


# ---- a message given as n parts: prefix sums P, concatenation cat
P = z3.Function('sha.P', z3.IntSort(), z3.IntSort())
CAT = z3.Function('sha.cat', z3.IntSort(), z3.IntSort())
MAXMSG = 1 << 60


def mk_parts(b):
    """msg[], lmsg[] with n parts; P(i)=sum of the first i lengths; cat = concatenation of the parts"""
    n = b.int('n_msg', 32, 1, (1 << 31) - 1)
    ln = Obj('lmsg', mul(n.t, 8), kind='param', ro=True, unsigned=True)
    pl = b.e.uf(ln, 'i64')
    L = lambda i: pl(zi(mul(i, 8)))

    def lfact(st, i):
        return [z3.Implies(z3.And(zi(i) >= 0, zi(i) < n.t), z3.And(P(zi(i) + 1) == P(zi(i)) + L(i), L(i) >= 0, P(zi(i)) >= 0, P(zi(i) + 1) <= P(n.t)))]
    ln.onread = [lambda st, idx, off, ty, t: lfact(st, div8(off))]
    parts = Obj('parts', lambda i: L(i), kind='param', fam=True, ro=True)
    parts.onread = [lambda st, idx, off, ty, t: lfact(st, idx) + [z3.Implies(z3.And(zi(idx) >= 0, zi(idx) < n.t, zi(off) >= 0, zi(off) < L(idx)), t == CAT(P(zi(idx)) + zi(off)))]]
    msg = Obj('msg', mul(n.t, 8), kind='param', ro=True, ptrs=lambda st, idx, off: PV(parts, 0, div8(off)))
    b.st.assume(And(P(0) == 0, P(n.t) >= 0, P(n.t) < MAXMSG))
    for f in lfact(b.st, 0): b.st.assume(f)
    return n, msg, ln, parts, L


def div8(off):
    from ..engine import div_exact
    if isc(off): return off // 8
    d = div_exact(off, 8)
    return d if d is not None else idiv(off, 8)


def wf_cursor(n, L, so, off):
    return Or(And(le(0, so), lt(so, n), le(0, off), le(off, L(so))), And(eq(so, n), eq(off, 0)))


class MemncpyMulti(Contract):
    """copies min(n, remaining) bytes of the concatenation from the cursor, and advances the cursor by as much"""
    name = 'nx_memncpy_multi'
    def setup(s, e, case):
        b = B(e)
        n, msg, ln, parts, L = mk_parts(b)
        cnt = b.int('n', 64, 0, 1 << 40)
        dest = b.array('dest', 'i8', cnt.t)
        so = b.int('so', 32, 0, None); off = b.int('off', 64, 0, 1 << 60)
        b.st.assume(And(wf_cursor(n.t, L, so.t, off.t)))
        # facts about the cursor position
        b.st.assume(z3.Implies(so.t < n.t, z3.And(P(so.t + 1) == P(so.t) + L(so.t), L(so.t) >= 0, P(so.t) >= 0, P(so.t + 1) <= P(n.t))))
        oso, ooff = Obj('src_offset', 4, kind='param', layout=None), Obj('offset', 8, kind='param', layout=None)
        oso.cells[0] = ('i32', so); ooff.cells[0] = ('i64', off)
        s.n, s.L, s.pos0, s.dest = n, L, P(so.t) + off.t, dest
        s.oso, s.ooff = oso, ooff
        return b.st, [PV(dest, 0), n, PV(msg, 0), PV(ln, 0), cnt, PV(oso, 0), PV(ooff, 0)], b.aux(L=L, n=n, so=so, off=off, dest=dest, oso=oso, ooff=ooff, cnt=cnt, roots=set())

    def loop_cands(s, e, L):
        out = []
        def cur(v):
            so = e.S(v.st, e.read(v.st, s.oso, None, 0, 'i32')); off = e.U(v.st, e.read(v.st, s.ooff, None, 0, 'i64'))
            v.st.assume(z3.Implies(z3.And(zi(so) >= 0, zi(so) < s.n.t), z3.And(P(zi(so) + 1) == P(zi(so)) + s.L(so), s.L(so) >= 0, P(zi(so)) >= 0, P(zi(so) + 1) <= P(s.n.t))))
            return so, off
        def pos(v): so, off = cur(v); return add(P(zi(so)), off)
        out.append(Cand('cursor well formed', lambda v: wf_cursor(s.n.t, s.L, *cur(v))))
        for a in L.accs():
            if a[0] != 'phi': continue
            out.append(Cand('position = start + %s' % a[1], lambda v, a=a: eq(pos(v), add(s.pos0, v.get(a)))))
            out.append(Cand('%s <= remaining' % a[1], lambda v, a=a: le(add(s.pos0, v.get(a)), P(s.n.t))))
            out.append(QCand('dest[j]=cat(pos0+j) for j<%s' % a[1], lambda v: s.dest, 1, 1,
                             lambda v, co, a=a: Implies(And(le(0, co[0]), lt(co[0], v.get(a))), eq(e.U(v.st, e.read(v.st, s.dest, None, co[0], 'i8')), CAT(s.pos0 + co[0])))))
        return out

    def measures(s, e, L):
        """lexicographic (bytes wanted, parts left) flattened: parts left decreases unless the request is satisfied"""
        def m(v):
            so = e.S(v.st, e.read(v.st, s.oso, None, 0, 'i32'))
            return add(sub(s.n.t, so), 0)
        for a in L.accs():
            if a[0] == 'phi':
                yield ('parts left + (%s>0)' % a[1], lambda v, a=a: add(m(v), ite(lt(0, v.get(a)), 1, 0)))

    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        st = o.st
        so, off = e.S(st, e.read(st, aux.oso, None, 0, 'i32')), e.U(st, e.read(st, aux.ooff, None, 0, 'i64'))
        tot = P(aux.n.t) - s.pos0
        want = ite(le(aux.cnt.t, tot), aux.cnt.t, tot)
        r = e.U(st, o.ret)
        e.oblige(st, eq(r, want), 'post', 'bytes copied = min(n, remaining)')
        e.oblige(st, wf_cursor(aux.n.t, s.L, so, off), 'post', 'cursor well formed')
        e.oblige(st, eq(add(P(zi(so)), off), add(s.pos0, want)), 'post', 'cursor advanced by the bytes copied')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, want)))
        e.oblige(st, eq(e.U(st, e.read(st, aux.dest, None, j, 'i8')), CAT(s.pos0 + j)), 'post', 'dest[j] = byte j of the remaining concatenation')

    def apply(s, e, st, args):
        dest, n, msg, ln, cnt, so_p, off_p = args
        c = e.U(st, cnt)
        e.valid(st, dest, c, 'pre: dest', wr=True)
        if msg.obj.name != 'msg': raise Unsupported('memncpy_multi on unknown parts')
        N = e.S(st, n)
        L = e.cur.L
        so = e.S(st, e.read(st, so_p.obj, None, so_p.off, 'i32')); off = e.U(st, e.read(st, off_p.obj, None, off_p.off, 'i64'))
        e.oblige(st, wf_cursor(N, L, so, off), 'pre', 'cursor well formed')
        st.assume(z3.Implies(z3.And(zi(so) >= 0, zi(so) < N), z3.And(P(zi(so) + 1) == P(zi(so)) + L(so), L(so) >= 0, P(zi(so)) >= 0, P(zi(so) + 1) <= P(zi(N)))))
        pos = add(P(zi(so)), off)
        tot = sub(P(zi(N)), pos)
        cp = ite(le(c, tot), c, tot)
        so2, off2 = e.fresh(st, 'i32', 'so'), e.fresh(st, 'i64', 'off')
        st.assume(wf_cursor(N, L, so2.t, off2.t)); st.assume(eq(add(P(so2.t), off2.t), add(pos, cp)))
        st.assume(z3.Implies(so2.t < zi(N), z3.And(P(so2.t + 1) == P(so2.t) + L(so2.t), L(so2.t) >= 0, P(so2.t) >= 0, P(so2.t + 1) <= P(zi(N)))))
        e.write(st, so_p.obj, None, so_p.off, 'i32', so2); e.write(st, off_p.obj, None, off_p.off, 'i64', off2)
        base = dest.off
        hv = Obj('tailbytes', c)
        def val(st, idx, o, ty, base=base, pos=pos):
            if ty != 'i8': raise Unsupported('message byte read as ' + ty)
            t = CAT(zi(add(pos, sub(o, base))))
            st.assume(And(t >= 0, t < 256))
            return IV(8, t, 0, 255)
        e.set_fn(st, dest.obj, val, region=lambda idx, o, base=base, cp=cp: And(le(base, o), lt(o, add(base, cp))))
        return [(st, IV(64, cp, 0, 1 << 62))]


F = [z3.Function('sha.F%d' % w, z3.IntSort(), z3.IntSort()) for w in range(8)]     # chaining value after k blocks


class Multi(Contract):
    """digest = SHA-256(concatenation of the parts), for every number and length of parts"""
    name = 'nx_sha256_multi'
    def setup(s, e, case):
        b = B(e)
        n, msg, ln, parts, s.L = mk_parts(b)
        h = b.array('hash', 'i8', 32)
        s.len = P(n.t); s.n = n
        b.st.assume(s.len < MAXMSG)
        for w in range(8): b.st.assume(F[w](0) == H0[w])
        return b.st, [PV(h, 0), n, PV(msg, 0), PV(ln, 0)], b.aux(h=h, roots={h})

    def M(s, i):
        """byte i of the padded message (FIPS 180-4 5.1.1)"""
        ln = s.len
        nb = (ln + 8) / 64 + 1
        tail = i - (nb * 64 - 8)
        lenb = 0
        for b in range(8): lenb = ite(eq(tail, b), imod(idiv(ln * 8, 1 << (8 * (7 - b))), 256), lenb)
        return ite(lt(i, ln), CAT(zi(i)), ite(eq(i, ln), 0x80, ite(lt(i, nb * 64 - 8), 0, lenb)))

    def block_lemma(s, e, st, H, by):
        """if H is the chaining value F(b) and the bytes are block b of the padded message, the result is F(b+1)"""
        for b in s.block_ids(e, st):
            g = And(*[eq(H[w], F[w](zi(b))) for w in range(8)])
            if e.pr.prove(st, g, 3000) is not True: continue
            ok = True
            for j in range(64):
                if e.pr.prove(st, eq(by[j], s.M(zi(b) * 64 + j)), 4000) is not True: ok = False; break
            if not ok: continue
            r = [F[w](zi(b) + 1) for w in range(8)]
            for x in r: st.assume(And(x >= 0, x < U32))
            return r
        return None

    def block_ids(s, e, st):
        ids = []
        if getattr(e, 'last_k', None) is not None: ids.append(e.last_k)
        q = s.len / 64
        return ids + [q, q + 1]

    def loop_cands(s, e, L):
        out = []
        accs = L.accs()
        for a in accs:
            if a in L.affine: continue
            for b in accs + [('k',)]:
                if b == a or (b != ('k',) and b not in L.affine): continue
                out.append(Cand('%s = P(%s)' % (a[1] if a[0] == 'phi' else 'cell', b), lambda v, a=a, b=b: eq(v.get(a), P(zi(v.get(b))))))
        cells = {}
        for (o, off), ty in L.cells.items():
            if ty == 'i32' and off in range(0, 32, 4): cells.setdefault(o, []).append(off)
        for o, offs in cells.items():
            if len(offs) == 8:
                for off in offs:
                    out.append(Cand('H[%d] = F(k)' % (off // 4), lambda v, o=o, off=off: eq(e.U(v.st, e.read(v.st, o, None, off, 'i32')), F[off // 4](zi(v.k)))))
        so = [(o, off) for (o, off), ty in L.cells.items() if ty == 'i32' and o not in [x for x, y in cells.items() if len(y) == 8]]
        of = [(o, off) for (o, off), ty in L.cells.items() if ty == 'i64']
        for a in so:
            for c in of:
                def rd(v, a=a, c=c): return e.S(v.st, e.read(v.st, a[0], None, a[1], 'i32')), e.U(v.st, e.read(v.st, c[0], None, c[1], 'i64'))
                out.append(Cand('cursor well formed', lambda v, rd=rd: wf_cursor(s.n.t, s.L, *rd(v))))
                out.append(Cand('cursor at 64k', lambda v, rd=rd: eq(add(P(zi(rd(v)[0])), rd(v)[1]), mul(64, v.k))))
        return out

    def post(s, e, st0, o, args, aux):
        st = o.st
        nb = (s.len + 8) / 64 + 1
        for i in range(32):
            v = e.U(st, e.read(st, aux.h, None, i, 'i8'))
            fw = F[i // 4](nb)
            st.assume(And(fw >= 0, fw < U32))
            e.oblige(st, eq(v, imod(idiv(fw, 1 << (8 * (3 - i % 4))), 256)), 'post', 'digest byte %d = SHA-256' % i)

    def apply(s, e, st, args):
        h, n, msg, ln = args
        nn = e.S(st, n)
        e.valid(st, h, 32, 'pre: 32-byte digest buffer', wr=True)
        if nn != 1: raise Unsupported('call with several parts')
        p = e.read(st, msg.obj, msg.idx, msg.off, 'ptr'); l = e.U(st, e.read(st, ln.obj, ln.idx, ln.off, 'i64'))
        e.valid(st, p, l, 'pre: message readable')
        return [set_digest(e, st, h, p, l)]


DIG = {}


def set_digest(e, st, h, p, l):
    key = (p.obj, id(st.mem.get(p.obj)), str(p.off), str(l))
    f = DIG.setdefault(key, z3.Function(uid('sha256'), z3.IntSort(), z3.IntSort()))
    def val(st, idx, o, ty):
        t = f(zi(sub(o, h.off))); st.assume(And(t >= 0, t < 256)); return IV(8, t, 0, 255)
    e.set_fn(st, h.obj, val, region=lambda idx, o: And(le(h.off, o), lt(o, add(h.off, 32))))
    return st, None


class Sha256(Contract):
    """one-part message: same digest as the multi-part form with that single part"""
    name = 'nx_sha256'
    def setup(s, e, case):
        b = B(e)
        l = b.int('lmsg', 64, 0, MAXMSG); m = b.array('message', 'i8', l.t, ro=True); h = b.array('hash', 'i8', 32)
        return b.st, [PV(h, 0), PV(m, 0), l], b.aux()
    def spec(s, e, st, args):
        h, m, l = args
        e.valid(st, h, 32, 'pre: 32-byte digest buffer', wr=True); e.valid(st, m, e.U(st, l), 'pre: message readable')
        return [set_digest(e, st, h, m, e.U(st, l))]


ALL = [Block, MemncpyMulti, Multi, Sha256]
CONTRACTS = {c.name: c() for c in ALL}
CONTRACTS.update({k: v for k, v in bit_ops.CONTRACTS.items() if k in ('nx_split_big_endian32', 'nx_split_big_endian64', 'nx_compose_big_endian32', 'nx_rotr32')})
