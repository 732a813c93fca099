"""nx_string.c and the text output of nx_io.c under contract."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, View, PathEnd
from ..models_io import mk_file, pos, setpos

FILES = ['src/nx_string.c', 'src/nx_io.c', 'src/nx_alloc.c', 'src/nx_math.c']


def cpy(e, st, src, n, name='copy'):
    """fresh heap object holding the n bytes at src"""
    o = fresh_obj(name, n, ('arr', 'i8'))
    st.mem[o] = Layer('cp', None, idx=None, off=0, n=n, sobj=src.obj, sidx=src.idx, soff=src.off, slayer=st.mem.get(src.obj))
    return o


class Strdup(Contract):
    """a fresh, independent copy of the string"""
    name = 'nx_strdup'
    def setup(s, e, case):
        b = B(e); c = b.cstr('s'); return b.st, [PV(c, 0)], b.aux()
    def spec(s, e, st, args):
        p, = args
        n = add(e.slen(e, st, p, 'nx_strdup'), 1)
        o = cpy(e, st, p, n)
        st.ghost[('slen', o)] = (st.mem[o], sub(n, 1))
        return [(st, PV(o, 0))]


class Strredup(Contract):
    """*dest is freed and replaced by a copy of src (null for null); src must not be the string being replaced"""
    name = 'nx_strredup'; cases = ('null,null', 'null,str', 'heap,null', 'heap,str')
    def setup(s, e, case):
        b = B(e); a, c = case.split(',')
        d = Obj('dest', 8, kind='param', layout=('struct', [(0, 'ptr', '*dest')])); b.reg(d)
        old = b.cstr('old', ro=False, kind='hparam') if a == 'heap' else None
        d.cells[0] = ('ptr', PV(old, 0) if old else NULL)
        src = b.cstr('src') if c == 'str' else None
        return b.st, [PV(d, 0), PV(src, 0) if src else NULL], b.aux()
    def spec(s, e, st, args):
        d, src = args
        old = e.read(st, d.obj, d.idx, d.off, 'ptr')
        if old.obj is not None: st.dead[old.obj] = True
        if src.obj is None: e.write(st, d.obj, d.idx, d.off, 'ptr', NULL); return [(st, None)]
        n = add(e.slen(e, st, src, 'nx_strredup'), 1)
        e.write(st, d.obj, d.idx, d.off, 'ptr', PV(cpy(e, st, src, n), 0))
        return [(st, None)]


class Vfstr(Contract):
    """the whole formatted text, whatever its length, in a fresh null-terminated string"""
    name = 'nx_vfstr'
    def setup(s, e, case):
        b = B(e); f = b.cstr('format'); va = Obj('va', 24, kind='param')
        return b.st, [PV(f, 0), PV(va, 0)], b.aux(f=f)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret':
            e.oblige(st, bool(st.ghost.get('fmt_failed')) or False, 'post', 'fatal only when formatting fails'); return
        i = e.fmt_ids[(aux.f, '0')]
        r = o.ret
        e.oblige(st, Not(r.nullc) if r.obj is not None else False, 'post', 'result is not null')
        e.oblige(st, eq(r.off, 0), 'post', 'result is the start of its allocation')
        e.oblige(st, And(r.obj.kind == 'heap', st.dead.get(r.obj) is None), 'post', 'result is live heap memory')
        n = e.FLEN(i)
        j = z3.Int(uid('j')); st.assume(And(j >= 0, j < n))
        e.valid(st, PV(r.obj, 0), add(n, 1), 'post: the text and its terminator fit')
        e.oblige(st, eq(e.U(st, e.read(st, r.obj, None, j, 'i8')), e.FMT(i, j)), 'post', 'character j of the result is character j of the formatted text')
        e.oblige(st, eq(e.U(st, e.read(st, r.obj, None, n, 'i8')), 0), 'post', 'terminated after the text')
        for h in st.ghost.get('heap', ()):
            if h is not r.obj and st.dead.get(h) is not True: e.oblige(st, False, 'post', 'no other allocation survives')


class Strwrite(Contract):
    """0 exactly when nothing failed, and then the stream holds the 64-bit length followed by the characters"""
    name = 'nx_strwrite'
    def setup(s, e, case):
        b = B(e); c = b.cstr('s'); f = mk_file(b, 'out'); return b.st, [PV(c, 0), PV(f, 0)], b.aux(c=c, f=f)
    def post(s, e, st0, o, args, aux):
        st = o.st; c, f = aux.c, aux.f
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        bad = bool(st.ghost.get('io_failed'))
        e.oblige(st, eq(eq(e.S(st, o.ret), 0), not bad), 'post', 'status 0 exactly when every write succeeded')
        if bad: return
        e.oblige(st, eq(pos(e, st, f), add(f.pos0, add(8, c.slen))), 'post', '8 + length bytes written')
        e.oblige(st, eq(e.U(st, e.read(st, f.data, None, f.pos0, 'i64')), c.slen), 'post', 'length field')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, j < c.slen))
        e.oblige(st, eq(e.U(st, e.read(st, f.data, None, add(f.pos0, add(8, j)), 'i8')), e.U(st, e.read(st, c, None, j, 'i8'))), 'post', 'character j')
    def spec_out(s): pass


class Strread(Contract):
    """0 exactly when the whole record is there, and then *s is the stored string; the buffer is grown only when too small"""
    name = 'nx_strread'; cases = ('null', 'buffer'); leakcheck = False
    def setup(s, e, case):
        b = B(e); f = mk_file(b, 'in', readable=True)
        d = Obj('s', 8, kind='param'); b.reg(d)
        if case == 'null': size = IV(64, 0); d.cells[0] = ('ptr', NULL); buf = None
        else:
            size = b.int('size', 64, 1, 1 << 40); buf = b.array('buf', 'i8', size.t); d.cells[0] = ('ptr', PV(buf, 0))
        b.st.assume(f.pos0 + 8 <= f.len) if False else None
        return b.st, [PV(d, 0), size, PV(f, 0)], b.aux(f=f, d=d, buf=buf, size=size)
    def post(s, e, st0, o, args, aux):
        st = o.st; f = aux.f
        if o.kind != 'ret': return      # allocation failure
        r = e.S(st, o.ret)
        n = e.U(st, e.read(st, f.data, None, f.pos0, 'i64'))
        whole = And(le(add(f.pos0, 8), f.len), le(add(f.pos0, add(8, n)), f.len))
        e.oblige(st, eq(eq(r, 0), whole), 'post', 'status 0 exactly when length and characters are all there')
        p = e.read(st, aux.d, None, 0, 'ptr')
        st.assume(eq(r, 0))
        if not e.pr.feasible(st): return
        if p.obj is None: e.oblige(st, False, 'post', 'a string is stored'); return
        e.oblige(st, And(eq(p.off, 0), p.nullc is False, st.dead.get(p.obj) is None), 'post', 'the string is live')
        if p.obj is aux.buf: e.oblige(st, lt(n, aux.size.t), 'post', 'buffer kept only when large enough')
        e.valid(st, PV(p.obj, 0), add(n, 1), 'post: text and terminator fit')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, n)))
        e.oblige(st, eq(e.U(st, e.read(st, p.obj, None, j, 'i8')), e.U(st, e.read(st, f.data, None, add(f.pos0, add(8, j)), 'i8'))), 'post', 'character j as stored')
        e.oblige(st, eq(e.U(st, e.read(st, p.obj, None, n, 'i8')), 0), 'post', 'terminated')
        e.oblige(st, eq(pos(e, st, f), add(f.pos0, add(8, n))), 'post', 'stream left after the record')


class Strread0(Contract):
    """the stored string, or null (and nothing leaked) when the record is incomplete"""
    name = 'nx_strread0'
    def setup(s, e, case):
        b = B(e); f = mk_file(b, 'in', readable=True)
        return b.st, [PV(f, 0)], b.aux(f=f)
    def post(s, e, st0, o, args, aux):
        st = o.st; f = aux.f
        if o.kind != 'ret': return
        n = e.U(st, e.read(st, f.data, None, f.pos0, 'i64'))
        whole = And(le(add(f.pos0, 8), f.len), le(add(f.pos0, add(8, n)), f.len))
        p = o.ret
        isnull = True if p.obj is None else p.nullc
        e.oblige(st, eq(zb(isnull), zb(Not(whole))), 'post', 'null exactly when the record is incomplete')
        for h in st.ghost.get('heap', ()):
            if h is not p.obj and st.dead.get(h) is not True: e.oblige(st, False, 'post', 'no other allocation survives')
        if p.obj is None: return
        e.oblige(st, And(eq(p.off, 0), st.dead.get(p.obj) is None), 'post', 'the string is live')
        e.valid(st, PV(p.obj, 0), add(n, 1), 'post: text and terminator fit')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, n)))
        e.oblige(st, eq(e.U(st, e.read(st, p.obj, None, j, 'i8')), e.U(st, e.read(st, f.data, None, add(f.pos0, add(8, j)), 'i8'))), 'post', 'character j as stored')
        e.oblige(st, eq(e.U(st, e.read(st, p.obj, None, n, 'i8')), 0), 'post', 'terminated')


class Getline(Contract):
    """-1 exactly at end of file; else the characters up to and including the next newline (or the end of file), terminated,
    in a buffer of *n bytes"""
    name = 'nx_getline'; cases = ('null', 'buffer'); leakcheck = False
    trusts = ('nx_getline: the growth factor 1.6f is applied in real arithmetic',)
    def setup(s, e, case):
        b = B(e); f = s.f = mk_file(b, 'in', readable=True, maxlen=1 << 28)
        ln = s.ln = Obj('line', 8, kind='param'); b.reg(ln); nn = s.nn = Obj('n', 8, kind='param'); b.reg(nn)
        if case == 'null': ln.cells[0] = ('ptr', NULL); nn.cells[0] = ('i64', IV(64, 0))
        else:
            n = b.int('n', 64, 1, 1 << 28); buf = b.array('buf', 'i8', n.t); ln.cells[0] = ('ptr', PV(buf, 0)); nn.cells[0] = ('i64', n)
        return b.st, [PV(ln, 0), PV(nn, 0), PV(f, 0)], b.aux()
    def measures(s, e, L): yield ('bytes left', lambda v: sub(s.f.len, pos(e, v.st, s.f)))
    def cap(s, e, st): return e.U(st, e.read(st, s.nn, None, 0, 'i64'))
    def loop_cands(s, e, L):
        out = []
        d = lambda v, j: e.U(v.st, e.read(v.st, s.f.data, None, add(s.f.pos0, j), 'i8'))
        out.append(Cand('position = start + k', lambda v: eq(pos(e, v.st, s.f), add(s.f.pos0, v.k))))
        out.append(Cand('k <= *n', lambda v: le(v.k, s.cap(e, v.st))))
        out.append(Cand('*n bounded', lambda v: le(s.cap(e, v.st), (1 << 29))))
        out.append(Cand('position <= length', lambda v: le(pos(e, v.st, s.f), s.f.len)))
        def buf(v): return e.read(v.st, s.ln, None, 0, 'ptr')
        def bsz(v):
            p = buf(v); return eq(s.cap(e, v.st), 0 if p.obj is None else p.obj.size)
        out.append(Cand('*line holds *n bytes', bsz))
        out.append(Cand('*line null only when empty', lambda v: Or(Not(L.nullc(buf(v))), eq(s.cap(e, v.st), 0))))
        out.append(Cand('*line at its start', lambda v: eq(buf(v).off, 0)))
        def sofar(v, co):
            o = buf(v).obj
            if o is None: return eq(v.k, 0)
            return Implies(And(le(0, co[0]), lt(co[0], v.k)), And(eq(e.U(v.st, e.read(v.st, o, None, co[0], 'i8')), d(v, co[0])), ne(d(v, co[0]), 10)))
        out.append(QCand('characters so far', lambda v: buf(v).obj, 1, 1, sofar))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st; f = s.f
        if o.kind != 'ret': return
        r = e.S(st, o.ret)
        p = e.read(st, s.ln, None, 0, 'ptr'); n = s.cap(e, st)
        if p.obj is None: e.oblige(st, False, 'post', 'a buffer is stored'); return
        e.oblige(st, And(p.nullc is False or Not(p.nullc), eq(p.off, 0), st.dead.get(p.obj) is None), 'post', 'the buffer is live')
        e.valid(st, PV(p.obj, 0), n, 'post: *n bytes are allocated')
        e.oblige(st, eq(eq(r, -1), le(f.len, f.pos0)), 'post', '-1 exactly at end of file')
        e.oblige(st, eq(pos(e, st, f), add(f.pos0, ite(eq(r, -1), 0, r))), 'post', 'the stream advanced by the length of the line')
        e.oblige(st, And(le(-1, r), lt(r, n)), 'post', 'length below the buffer size')
        e.oblige(st, eq(e.U(st, e.read(st, p.obj, None, ite(eq(r, -1), 0, r), 'i8')), 0), 'post', 'terminated')
        last = e.U(st, e.read(st, f.data, None, add(f.pos0, sub(r, 1)), 'i8'))
        e.oblige(st, Or(eq(r, -1), eq(last, 10), eq(pos(e, st, f), f.len)), 'post', 'the line ends with a newline or at the end of file')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, r)))
        e.oblige(st, eq(e.U(st, e.read(st, p.obj, None, j, 'i8')), e.U(st, e.read(st, f.data, None, add(f.pos0, j), 'i8'))), 'post', 'character j of the line')
        e.oblige(st, Or(eq(j, sub(r, 1)), ne(e.U(st, e.read(st, f.data, None, add(f.pos0, j), 'i8')), 10)), 'post', 'no newline before the end of the line')


# ------------------------------------------------------------ codecs
E = z3.Function('enc.E', z3.IntSort(), z3.IntSort())     # encoded length of the first i characters
READ = {10: 'n', 13: 'r', 9: 't', 8: 'b', 12: 'f', 34: '"', 92: '\\'}
DQ = {34: '"'}


def special(tab, c): return Or(*[eq(c, k) for k in tab])
def code(tab, c):
    r = 0
    for k, v in tab.items(): r = ite(eq(c, k), ord(v), r)
    return r


def lemma(e, what, hyps, goal):
    st = State(e)
    for h in hyps: st.assume(h)
    e.fnstack.append('lemma')
    try: e.oblige(st, goal, 'lemma', what)
    finally: e.fnstack.pop()


def e_lemmas(e):
    """E(i)+width(i) <= E(k) for i<k, by induction on k"""
    i, k, w, wi = z3.Ints('i k w wi')
    lemma(e, 'monotone: base', [E(i + 1) == E(i) + wi, wi >= 1], E(i) + wi <= E(i + 1))
    lemma(e, 'monotone: step', [E(i) + wi <= E(k), E(k + 1) == E(k) + w, w >= 1], E(i) + wi <= E(k + 1))


class Enc(Contract):
    """0 only if everything was written, and then the stream holds the quote, the encoding of every character in order, the quote"""
    tab = None; esc = None; cases = ('str', 'null')
    def prepare(s, e): e_lemmas(e)
    def setup(s, e, case):
        b = B(e); f = mk_file(b, 'out')
        s.f = f; s.c = None
        if case == 'null': return b.st, [NULL, PV(f, 0)], b.aux()
        c = s.c = b.cstr('s')
        b.st.assume(E(0) == 0)
        return b.st, [PV(c, 0), PV(f, 0)], b.aux()
    def ch(s, e, st, i): return e.U(st, e.read(st, s.c, None, i, 'i8'))
    def w(s, c): return ite(special(s.tab, c), 2, 1)
    def first(s, c): return ite(special(s.tab, c), ord(s.esc), c)
    def defn(s, e, st, i):
        """definition of E at i"""
        c = s.ch(e, st, i)
        st.assume(Implies(And(le(0, i), lt(i, s.c.slen)), And(E(zi(i) + 1) == E(zi(i)) + s.w(c), E(zi(i)) >= 0)))
        return c
    def mono(s, e, st, i, k):
        c = s.defn(e, st, i)
        st.assume(Implies(And(le(0, i), lt(i, k), le(k, s.c.slen)), le(add(E(zi(i)), s.w(c)), E(zi(k)))))
        return c
    def loop_cands(s, e, L):
        out = []
        if s.c is None: return out
        base = s.f.pos0 + 1
        for a in L.accs():
            if a[0] != 'phi': continue
            def idx(v, a=a): return v.get(a)
            out.append(Cand('%s in range' % nm(a), lambda v, idx=idx: And(le(0, idx(v)), le(idx(v), s.c.slen))))
            def prog(v, idx=idx):
                s.defn(e, v.st, idx(v)); s.defn(e, v.st, sub(idx(v), 1))
                return eq(pos(e, v.st, s.f), add(base, E(zi(idx(v)))))
            out.append(Cand('position = start + 1 + E(%s)' % nm(a), prog))
            for two in (0, 1):
                def frm(v, co, idx=idx, two=two):
                    i, = co
                    c = s.mono(e, v.st, i, idx(v)); s.mono(e, v.st, i, sub(idx(v), 1)); s.defn(e, v.st, sub(idx(v), 1)); s.defn(e, v.st, idx(v))
                    h = And(le(0, i), lt(i, idx(v)))
                    d = e.U(v.st, e.read(v.st, s.f.data, None, add(base, E(i) + two), 'i8'))
                    return Implies(h, eq(d, s.first(c))) if not two else Implies(And(h, special(s.tab, c)), eq(d, code(s.tab, c)))
                out.append(QCand('encoding of every character before %s (byte %d)' % (nm(a), two), lambda v: s.f.data, 1, lambda i, two=two: add(base, E(i) + two), frm))
            out.append(Cand('opening quote', lambda v: eq(e.U(v.st, e.read(v.st, s.f.data, None, s.f.pos0, 'i8')), 34)))
            out.append(QCand('opening quote', lambda v: s.f.data, 0, lambda: s.f.pos0, lambda v, co: eq(e.U(v.st, e.read(v.st, s.f.data, None, s.f.pos0, 'i8')), 34)))
        return out
    def measures(s, e, L):
        for a in L.accs():
            if a[0] == 'phi' and s.c is not None: yield ('characters left', lambda v, a=a: sub(s.c.slen, v.get(a)))
    def post(s, e, st0, o, args, aux):
        st = o.st; f = s.f
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        bad = bool(st.ghost.get('io_failed'))
        r = e.S(st, o.ret)
        e.oblige(st, eq(eq(r, 0), not bad), 'post', 'status 0 exactly when every write succeeded')
        if bad: return
        if s.c is None:
            w = s.null
            e.oblige(st, eq(pos(e, st, f), add(f.pos0, len(w))), 'post', 'null: bytes written')
            for i, x in enumerate(w): e.oblige(st, eq(e.U(st, e.read(st, f.data, None, add(f.pos0, i), 'i8')), x), 'post', 'null: byte %d' % i)
            return
        n = s.c.slen
        base = f.pos0 + 1
        e.oblige(st, eq(pos(e, st, f), add(base, E(n) + 1)), 'post', 'encoded length written')
        e.oblige(st, eq(e.U(st, e.read(st, f.data, None, add(base, E(n)), 'i8')), 34), 'post', 'closing quote')
        i = z3.Int(uid('i')); st.assume(And(i >= 0, i < n)); st.coords.append((i,)); st.coords.append(())
        c = s.mono(e, st, i, n)
        e.oblige(st, eq(e.U(st, e.read(st, f.data, None, add(base, E(i)), 'i8')), s.first(c)), 'post', 'first byte of the encoding of character i')
        d = e.U(st, e.read(st, f.data, None, add(base, E(i) + 1), 'i8'))
        st.assume(special(s.tab, c))
        e.oblige(st, eq(d, code(s.tab, c)), 'post', 'second byte of the encoding of character i')


def nm(a): return a[1]


class EncReadable(Enc):
    name = 'nx_fputs_readable'; tab = READ; esc = '\\'; null = b'null'


class EncDQ(Enc):
    name = 'nx_fputs_double_quoted'; tab = DQ; esc = '"'; null = b''


class Dec(Contract):
    """case 'encoded': the encoding of any string decodes to that string; case 'any': for every byte sequence no read beyond
    `size` bytes, a terminated result, and a plain text without escapes is returned unchanged; null gives null"""
    cases = ('encoded', 'any', 'null')
    def prepare(s, e): e_lemmas(e)
    def setup(s, e, case):
        b = B(e); s.case = case
        if case == 'null': return b.st, [b.int('size', 64, 0, 1 << 40), NULL], b.aux()
        if case == 'any':
            n = b.int('size', 64, 0, 1 << 40); a = b.array('text', 'i8', n.t, ro=True); s.a = a; s.n = n
            return b.st, [n, PV(a, 0)], b.aux()
        t = s.t = b.cstr('original')
        b.st.assume(And(E(0) == 0, E(t.slen) >= 0, E(t.slen) < (1 << 40)))
        a = s.a = b.array('text', 'i8', E(t.slen), ro=True)
        return b.st, [IV(64, E(t.slen), 0, 1 << 40), PV(a, 0)], b.aux()
    def defn(s, e, st, i):
        n = s.t.slen
        c = e.U(st, e.read(st, s.t, None, i, 'i8'))
        sp = special(s.tab, c)
        ok = And(le(0, i), lt(i, n))
        a0 = e.U(st, e.read(st, s.a, None, E(zi(i)), 'i8')); a1 = e.U(st, e.read(st, s.a, None, E(zi(i)) + 1, 'i8'))
        st.assume(Implies(ok, And(E(zi(i) + 1) == E(zi(i)) + ite(sp, 2, 1), E(zi(i)) >= 0, le(E(zi(i) + 1), E(n)), eq(a0, ite(sp, ord(s.esc), c)), Implies(sp, eq(a1, code(s.tab, c))))))
        return c
    def loop_cands(s, e, L):
        out = []
        if s.case != 'encoded': return out
        for a in L.accs():
            if a[0] != 'phi': continue
            v0 = L.env0.get(a[1])
            def cur(v):
                s.defn(e, v.st, v.k); s.defn(e, v.st, sub(v.k, 1)); return v.k
            out.append(Cand('k <= characters', lambda v: le(cur(v), s.t.slen)))
            out.append(Cand('%s = E(k)' % nm(a), lambda v, a=a: eq(v.get(a), E(zi(cur(v))))))
            out.append(Cand('%s = E(n)-E(k)' % nm(a), lambda v, a=a: eq(v.get(a), E(s.t.slen) - E(zi(cur(v))))))
            out.append(Cand('%s = k' % nm(a), lambda v, a=a: eq(v.get(a), cur(v))))
            if isinstance(v0, PV) and v0.obj is not None and v0.obj is not s.a:
                out.append(QCand('decoded characters before %s' % nm(a), lambda v, a=a: v.env[a[1]].obj, 1, 1,
                                 lambda v, co, a=a: Implies(And(le(0, co[0]), lt(co[0], v.k)), eq(e.U(v.st, e.read(v.st, v.env[a[1]].obj, None, co[0], 'i8')), e.U(v.st, e.read(v.st, s.t, None, co[0], 'i8'))))))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if s.case == 'null':
            e.oblige(st, o.kind == 'ret' and o.ret.obj is None, 'post', 'null in, null out'); return
        if s.case == 'encoded':
            if o.kind != 'ret': e.oblige(st, False, 'post', 'a valid encoding is accepted'); return
            n = s.t.slen
            r = o.ret
            if r.obj is None: e.oblige(st, False, 'post', 'result is not null'); return
            e.oblige(st, eq(r.off, 0), 'post', 'result is the start of its allocation')
            e.valid(st, PV(r.obj, 0), add(n, 1), 'post: decoded text and terminator fit')
            j = z3.Int(uid('j')); st.assume(And(j >= 0, j < n))
            e.oblige(st, eq(e.U(st, e.read(st, r.obj, None, j, 'i8')), e.U(st, e.read(st, s.t, None, j, 'i8'))), 'post', 'character j is the original')
            e.oblige(st, eq(e.U(st, e.read(st, r.obj, None, n, 'i8')), 0), 'post', 'terminated after the original text')
            return
        if o.kind == 'ret': e.oblige(st, o.ret.obj is not None and o.ret.obj.kind == 'heap' and st.dead.get(o.ret.obj) is None, 'post', 'result is fresh memory')


class DecReadable(Dec):
    name = 'nx_xstr_from_readable'; tab = READ; esc = '\\'


class DecDQ(Dec):
    name = 'nx_xstr_from_double_quoted'; tab = DQ; esc = '"'


def hexd(d): return ite(lt(d, 10), add(48, d), add(87, d))


class HashStr(Contract):
    """2n lower-case hexadecimal digits, most significant digit of each byte first"""
    name = 'nx_hash_to_str'
    def setup(s, e, case):
        b = B(e); n = b.int('n', 32, 0, (1 << 29)); h = b.array('hash', 'i8', n.t, ro=True); s.n, s.h = n, h
        return b.st, [n, PV(h, 0)], b.aux()
    def loop_cands(s, e, L):
        out = []
        objs = [o for o in L.st0.ghost.get('heap', ())]
        for o in objs:
            for half in (0, 1):
                def frm(v, co, o=o, half=half):
                    j, = co
                    x = e.U(v.st, e.read(v.st, s.h, None, j, 'i8'))
                    return Implies(And(le(0, j), lt(j, v.k)), eq(e.U(v.st, e.read(v.st, o, None, 2 * j + half, 'i8')), hexd(imod(x, 16) if half else idiv(x, 16))))
                out.append(QCand('digits %d of bytes before k' % half, lambda v, o=o: o, 1, lambda j, half=half: 2 * j + half, frm))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        r = o.ret
        e.valid(st, PV(r.obj, 0), add(mul(2, s.n.t), 1), 'post: digits and terminator fit')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, s.n.t))); st.coords.append((j,))
        x = e.U(st, e.read(st, s.h, None, j, 'i8'))
        e.oblige(st, eq(e.U(st, e.read(st, r.obj, None, 2 * j, 'i8')), hexd(idiv(x, 16))), 'post', 'high digit of byte j')
        e.oblige(st, eq(e.U(st, e.read(st, r.obj, None, 2 * j + 1, 'i8')), hexd(imod(x, 16))), 'post', 'low digit of byte j')
        e.oblige(st, eq(e.U(st, e.read(st, r.obj, None, 2 * s.n.t, 'i8')), 0), 'post', 'terminated')


CONTRACTS = {c.name: c() for c in (Strdup, Strredup, Vfstr, Strwrite, Strread, Strread0, Getline, EncReadable, EncDQ, DecReadable, DecDQ, HashStr)}
