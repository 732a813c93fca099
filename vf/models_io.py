"""Models of stdio and of formatted output (trusted): a FILE is a byte sequence with a position.
Every operation may also fail, as the C library documents."""
import z3
from .sym import *
from .llir import Unsupported, Ty


def mk_file(b, name, readable=False, maxlen=1 << 40):
    """a stream; data is the byte content, pos the current position (i64 cell at offset 0)"""
    e = b.e
    f = Obj(name, 8, kind='file')
    f.data = Obj(name + '.data', 1 << 62, kind='file', layout=None)
    p = z3.Int(uid(name + '.pos')); b.st.assume(And(p >= 0, p < maxlen))
    f.pos0 = p
    f.cells[0] = ('i64', IV(64, p, 0, 1 << 62))
    if readable:
        f.len = z3.Int(uid(name + '.len')); b.st.assume(And(f.len >= p, f.len < maxlen))
    else: f.len = None
    return f


def pos(e, st, f): return e.read(st, f, None, 0, 'i64').t
def setpos(e, st, f, t): e.write(st, f, None, 0, 'i64', IV(64, t, 0, 1 << 62))


def cstr_const(e, p):
    """bytes of a constant C string, or None"""
    o = p.obj
    if o is None or not (o.kind == 'global' and o.ro) or not isc(p.off): return None
    r = []
    n = p.off
    while n in o.cells and isc(o.cells[n][1].t):
        c = o.cells[n][1].t % 256
        if c == 0: return bytes(r)
        r.append(c); n += 1
    return None


def install(e):
    M = e.models
    from .engine import Out, PathEnd

    def model(*names):
        def d(f):
            for n in names: M[n] = f
            return f
        return d

    def stream(st, p):
        if not isinstance(p, PV) or p.obj is None or p.obj.kind != 'file': raise Unsupported('unknown stream')
        if p.nullc is not False: e.oblige(st, Not(p.nullc), 'memory-safety', 'stream is not null')
        return p.obj

    def failing(st, ok):
        """outcome list: ok plus a failed one"""
        s2 = st.copy()
        s2.ghost['io_failed'] = True
        return s2

    def emit(e, st, f, bs):
        p = pos(e, st, f)
        for i, c in enumerate(bs): e.write(st, f.data, None, add(p, i), 'i8', c if isinstance(c, IV) else IV(8, c))
        setpos(e, st, f, add(p, len(bs)))

    @model('fputc', 'putc', '_IO_putc')
    def fputc(e, st, a, ins, mod):
        f = stream(st, a[1])
        bad = failing(st, None)
        c = e.cast(st, 'trunc', a[0], Ty('int', 32), Ty('int', 8))
        c = IV(8, e.U(st, c), 0, 255)
        emit(e, st, f, [c])
        return [Out('ret', st, IV(32, c.t, 0, 255)), Out('ret', bad, IV(32, -1))]

    @model('fputs')
    def fputs(e, st, a, ins, mod):
        f = stream(st, a[1])
        bad = failing(st, None)
        s = cstr_const(e, a[0])
        if s is None:
            n = e.slen(e, st, a[0], 'fputs')
            p = pos(e, st, f)
            st.mem[f.data] = Layer('cp', st.mem.get(f.data), idx=None, off=p, n=n, sobj=a[0].obj, sidx=a[0].idx, soff=a[0].off, slayer=st.mem.get(a[0].obj))
            setpos(e, st, f, add(p, n))
        else: emit(e, st, f, s)
        r = e.fresh(st, 'i32', 'fputs', 0, (1 << 31) - 1)
        return [Out('ret', st, r), Out('ret', bad, IV(32, -1))]

    @model('fprintf')
    def fprintf(e, st, a, ins, mod):
        f = stream(st, a[0])
        s = cstr_const(e, a[1])
        if s is None or b'%' in s: 
            r = fmt_out(e, st, f, s, a[2:])
            return r
        bad = failing(st, None)
        emit(e, st, f, s)
        return [Out('ret', st, IV(32, len(s))), Out('ret', bad, IV(32, -1))]

    def fmt_out(e, st, f, s, args):
        raise Unsupported('fprintf format %r' % (s,))

    @model('fwrite')
    def fwrite(e, st, a, ins, mod):
        f = stream(st, a[3])
        sz, n = e.U(st, a[1]), e.U(st, a[2])
        tot = mul(sz, n)
        e.valid(st, a[0], tot, 'fwrite source')
        bad = failing(st, None)
        p = pos(e, st, f)
        if a[0].obj is not None:
            st.mem[f.data] = Layer('cp', st.mem.get(f.data), idx=None, off=p, n=tot, sobj=a[0].obj, sidx=a[0].idx, soff=a[0].off, slayer=st.mem.get(a[0].obj))
        setpos(e, st, f, add(p, tot))
        r = e.fresh(bad, 'i64', 'written', 0, (1 << 63) - 1)
        bad.assume(lt(r.t, n))
        outs = [Out('ret', st, IV(64, n, 0, 1 << 62))]
        if e.pr.feasible(bad): outs.append(Out('ret', bad, r))
        return outs

    @model('fread')
    def fread(e, st, a, ins, mod):
        f = stream(st, a[3])
        if f.len is None: raise Unsupported('read from a write-only stream')
        sz, n = e.U(st, a[1]), e.U(st, a[2])
        tot = mul(sz, n)
        e.valid(st, a[0], tot, 'fread destination', wr=True)
        p = pos(e, st, f)
        outs = []
        full = le(add(p, tot), f.len)
        s2 = st.copy()
        st.assume(full)
        if e.pr.feasible(st):
            if a[0].obj is not None:
                st.mem[a[0].obj] = Layer('cp', st.mem.get(a[0].obj), idx=a[0].idx, off=a[0].off, n=tot, sobj=f.data, sidx=None, soff=p, slayer=st.mem.get(f.data))
            setpos(e, st, f, add(p, tot))
            outs.append(Out('ret', st, IV(64, n, 0, 1 << 62)))
        s2.assume(Not(full)) if not isc(full) else s2.assume(not full)
        s2.ghost['io_short'] = True
        if e.pr.feasible(s2):
            r = e.fresh(s2, 'i64', 'read', 0, (1 << 63) - 1)
            s2.assume(lt(r.t, n))
            if a[0].obj is not None:
                src = Obj('partial', tot, ptrs=None)
                lo, hi = a[0].off, add(a[0].off, tot)
                s2.mem[a[0].obj] = Layer('hv', s2.mem.get(a[0].obj), region=lambda idx, off, lo=lo, hi=hi: And(le(lo, off), lt(off, hi)), src=src, qf=[])
            setpos(e, s2, f, f.len)
            outs.append(Out('ret', s2, r))
        return outs

    @model('fgetc', 'getc', '_IO_getc')
    def fgetc(e, st, a, ins, mod):
        f = stream(st, a[0])
        if f.len is None: raise Unsupported('read from a write-only stream')
        p = pos(e, st, f)
        s2 = st.copy()
        outs = []
        st.assume(lt(p, f.len))
        if e.pr.feasible(st):
            c = e.read(st, f.data, None, p, 'i8')
            setpos(e, st, f, add(p, 1))
            outs.append(Out('ret', st, IV(32, e.U(st, c), 0, 255)))
        s2.assume(le(f.len, p))
        if e.pr.feasible(s2): outs.append(Out('ret', s2, IV(32, -1)))
        return outs

    @model('fflush')
    def fflush(e, st, a, ins, mod): return e.fresh(st, 'i32', 'fflush')

    @model('ferror')
    def ferror(e, st, a, ins, mod): return e.fresh(st, 'i32', 'ferror')

    @model('fclose')
    def fclose(e, st, a, ins, mod):
        f = stream(st, a[0])
        e.oblige(st, not st.ghost.get(('closed', f)), 'memory-safety', 'stream closed once')
        st.ghost[('closed', f)] = True
        return e.fresh(st, 'i32', 'fclose')

    # ---- formatted output into memory
    FMT = z3.Function('fmt.char', z3.IntSort(), z3.IntSort(), z3.IntSort())
    FLEN = z3.Function('fmt.len', z3.IntSort(), z3.IntSort())
    e.fmt_ids = {}
    e.FMT, e.FLEN = FMT, FLEN

    def fmt_id(p):
        key = (p.obj, str(p.off))
        return e.fmt_ids.setdefault(key, len(e.fmt_ids))

    @model('vsnprintf')
    def vsnprintf(e, st, a, ins, mod):
        """the formatted text of one (format, arguments) pair is a fixed character sequence"""
        i = fmt_id(a[2]); ls = e.U(st, a[1])
        e.valid(st, a[0], ls, 'vsnprintf buffer', wr=True)
        n = FLEN(i)
        bad = st.copy(); bad.ghost['fmt_failed'] = True
        r = e.fresh(bad, 'i32', 'vsn', -(1 << 31), -1)
        st.assume(And(n >= 0, n < (1 << 31) - 2))
        base = a[0].off
        m = ite(lt(n, ls), n, sub(ls, 1))
        def val(st2, idx, o, ty):
            if ty != 'i8': raise Unsupported('formatted text read as ' + ty)
            j = sub(o, base)
            t = FMT(i, zi(j)); st2.assume(And(t > 0, t < 256))
            return IV(8, ite(lt(j, m), t, 0), 0, 255)
        if a[0].obj is not None:
            e.set_fn(st, a[0].obj, val, region=lambda idx, o: And(le(base, o), le(o, add(base, m))))
            if isc(base) and base == 0: st.ghost[('slen', a[0].obj)] = (st.mem[a[0].obj], m)
        return [Out('ret', st, IV(32, n, 0, (1 << 31) - 1)), Out('ret', bad, r)]

    def hexd(d): return ite(lt(d, 10), add(48, d), add(87, d))

    @model('sprintf')
    def sprintf(e, st, a, ins, mod):
        s = cstr_const(e, a[1])
        if s != b'%02x': raise Unsupported('sprintf format %r' % (s,))
        v = e.U(st, a[2])
        e.oblige(st, le(v, 255), 'pre', '%02x argument is a byte')
        e.valid(st, a[0], 3, 'sprintf buffer', wr=True)
        e.write(st, a[0].obj, a[0].idx, a[0].off, 'i8', IV(8, hexd(idiv(v, 16)), 0, 255))
        e.write(st, a[0].obj, a[0].idx, add(a[0].off, 1), 'i8', IV(8, hexd(imod(v, 16)), 0, 255))
        e.write(st, a[0].obj, a[0].idx, add(a[0].off, 2), 'i8', IV(8, 0))
        return IV(32, 2)

    # ---- character classes ("C" locale)
    def cls(f):
        def m(e, st, a, ins, mod):
            c = e.S(st, a[0])
            e.oblige(st, And(le(-128, c), le(c, 255)), 'pre', 'character argument in range')
            t = f(c)
            r = e.fresh(st, 'i32', 'isx')
            st.assume(eq(ne(r.t, 0), t) if isc(t) else zb(ne(r.t, 0)) == t)
            return r
        return m
    rng = lambda c, lo, hi: And(le(ord(lo), c), le(c, ord(hi)))
    M['isdigit'] = cls(lambda c: rng(c, '0', '9'))
    M['isalpha'] = cls(lambda c: Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')))
    M['isalnum'] = cls(lambda c: Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z'), rng(c, '0', '9')))
    M['isspace'] = cls(lambda c: Or(eq(c, 32), And(le(9, c), le(c, 13))))
    M['isupper'] = cls(lambda c: rng(c, 'A', 'Z'))
    M['islower'] = cls(lambda c: rng(c, 'a', 'z'))

    @model('__ctype_b_loc')
    def ctype_b_loc(e, st, a, ins, mod):
        """the classification table of the C locale, entries for -128..255"""
        if not hasattr(e, 'ctype_tab'):
            bits = {0x800: lambda c: rng(c, '0', '9'), 0x400: lambda c: Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')), 0x2000: lambda c: Or(eq(c, 32), And(le(9, c), le(c, 13))),
                    0x8: lambda c: Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z'), rng(c, '0', '9'))}
            def base(st, idx, off, ty):
                if ty != 'i16': raise Unsupported('character class table read as ' + ty)
                from .engine import div_exact
                c = div_exact(sub(off, 256), 2)
                if c is None: c = idiv(sub(off, 256), 2)
                return ClassIV(16, z3.Int(uid('class')), lambda bit: bits[bit](c) if bit in bits else None)
            tab = Obj('ctype table', 768, kind='global', ro=True, base=base)
            ptr = Obj('ctype pointer', 8, kind='global', ro=True); ptr.cells[0] = ('ptr', PV(tab, 256))
            e.ctype_tab = ptr
        return PV(e.ctype_tab, 0)
