"""nx_image_io_pnm.c, nx_io.c: image files under contract.
Saving: the sequence of bytes handed to the stream is the PNM header of the image followed by its pixels row by row, and success
is reported exactly when the stream accepted every byte and was closed without error.
Loading pixel data: every pixel of the image is the one in the file, or failure is reported exactly when the file is too short."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand
from ..loops import *
from ..models_io import mk_file, cstr_const, pos
from .image import *
from . import image as im
from .. import llir
from .pixels import gray, clamp8

FILES = ['src/nx_image_io_pnm.c', 'src/nx_io.c', 'src/nx_image.c', 'src/nx_mem_block.c', 'src/nx_alloc.c']
CONTRACTS, OWN = dict(im.CONTRACTS), []
LIN, ERR, HST, OPEN = 0, 8, 16, 24     # ghost cells of an output stream: pixel bytes offered, write error, header state, open
DONE = 9000
WS = b' \n\t\r\v\f'


def reg(cls, own=True):
    CONTRACTS[cls.name] = cls()
    if own: OWN.append(cls.name)
    return cls


class Save(Contract):
    """fatal: the variant that ends the program instead of reporting failure"""
    name = 'nx_image_save_pnm'; fatal = False; unroll = False
    cases = ('gray', 'rgba')
    def setup(s, e, case):
        b = B(e); s.e = e; s.case = case
        s.c = 1 if case == 'gray' else 3
        s.img = mk_img(b, 'img', 'wrapped', GRAY if case == 'gray' else RGBA, UC, minw=1, minh=1, ro=True)
        s.name_ = b.cstr('filename')
        f = s.f = Obj('stream', 32, kind='file')
        for o, v in ((LIN, 0), (ERR, 0), (HST, 0), (OPEN, 0)): f.cells[o] = ('i64', IV(64, v))
        return b.st, [PV(s.img, 0), PV(s.name_, 0)], b.aux()
    # ---- the stream: every write may fail
    def g(s, st, o): return s.e.read(st, s.f, None, o, 'i64').t
    def set(s, st, o, t): s.e.write(st, s.f, None, o, 'i64', IV(64, t, 0, 1 << 62))
    def used(s, st): s.e.oblige(st, eq(s.g(st, OPEN), 1), 'memory-safety', 'the stream is open')
    def wrote(s, st):
        """the outcome of a write: does the error indicator of the stream become set"""
        b = s.e.fresh(st, 'i32', 'write error', 0, 1)
        s.set(st, ERR, ite(eq(b.t, 0), s.g(st, ERR), 1))
        return eq(b.t, 0)
    def header(s, st, tok):
        """the header grammar: P5|P6, space, width, space, height, space, 255, one white space character.
        states: 0 'P', 1 digit, then 2+3i: white space wanted, 3+3i: number or white space; digits of a literal number accumulate"""
        h = s.g(st, HST)
        e = s.e
        if not isc(h): e.oblige(st, False, 'post', 'the header is written before the pixels'); return
        want = (s.img.w.t, s.img.h.t, 255)
        bad = lambda what: e.oblige(st, False, 'post', 'header: ' + what)
        state, part = h % 100, h // 100          # part-1: the digits of a literal number so far
        if tok[0] == 'c':
            ch = tok[1]
            if state == 0:
                if ch != ord('P'): bad('begins with P')
                h = 1
            elif state == 1:
                if ch != ord('5' if s.c == 1 else '6'): bad('the format is P5 for gray and P6 for colour images')
                h = 2
            elif state == DONE % 100: bad('one white space character after the header')
            else:
                i = (state - 2) // 3
                if ch in WS:
                    if (state - 2) % 3 == 0: h = state + 1 if i < 3 else DONE_STATE
                    elif part: 
                        e.oblige(st, eq(want[i], part - 1), 'post', 'header: field %d' % i)
                        h = state + 2 if i < 2 else DONE_STATE
                elif 48 <= ch < 58 and (state - 2) % 3 == 1: h = state + 100 * ((part - 1 if part else 0) * 10 + ch - 48 + 1)
                else: bad('character %r' % chr(ch))
        else:
            i = (state - 2) // 3
            if state < 2 or (state - 2) % 3 != 1 or part or i > 2: bad('white space between fields'); return
            e.oblige(st, eq(want[i], tok[1]), 'post', 'header: ' + ('width', 'height', 'number of levels')[i])
            h = state + 2
        s.set(st, HST, h)
    def text(s, st, bs):
        for ch in bs: s.header(st, ('c', ch))
    def fmt(s, st, f, args):
        e = s.e; i = 0; args = list(args)
        while i < len(f):
            if f[i] != 37: s.text(st, f[i:i + 1]); i += 1; continue
            k = f[i + 1:i + 2]; i += 2
            if k == b'%': s.text(st, b'%')
            elif k == b'd' or k == b'i' or k == b'u':
                v = args.pop(0); t = e.S(st, v)
                s.text(st, str(t).encode()) if isc(t) else s.header(st, ('n', t))
            elif k == b'c' and isc(args[0].t): s.text(st, bytes([args.pop(0).t % 256]))
            elif k == b's':
                c = cstr_const(e, args.pop(0))
                if c is None: raise Unsupported('%s of an unknown string')
                s.text(st, c)
            else: raise Unsupported('header format %r' % f)
    def pixels(s, e, st, p, n):
        """n bytes at p are offered: they have to be the next pixel bytes of the image"""
        e.oblige(st, eq(s.g(st, HST), DONE_STATE), 'post', 'the header is complete before the pixels')
        lin = s.g(st, LIN); W, rs = s.img.w.t, s.img.rs.t
        if p.obj is not s.img.m.data: raise Unsupported('pixels written from other storage')
        ys = [k for (L, k, env) in e.loopk] + [0, 1]
        for (L, k, env) in e.loopk:
            for ph in L.phis:
                v = env.get(ph.res)
                if isinstance(v, IV) and not isc(v.t): ys.append(e.canon(st, v))
        u = []
        for y in ys:
            if not any(c is y or (not isc(c) and not isc(y) and zi(c).eq(zi(y))) for c in u): u.append(y)
        xs = u[::-1] if len(e.loopk) < 2 else [e.loopk[-1][1]] + u
        goals = []      # (y, x, channel) the bytes may come from: defining equations first, then ranges
        for y in u:
            b = sub(p.off, mul(y, rs))
            if s.c == 1: goals.append([eq(lin, add(mul(y, W), b)), And(le(0, y), lt(y, s.img.h.t), le(0, b), le(add(b, n), W))])
            else:
                for x in xs:
                    for ch in range(3): goals.append([eq(b, add(mul(4, x), ch)), le(n, 3 - ch), eq(lin, add(mul(y, mul(3, W)), add(mul(3, x), ch))), And(le(0, y), lt(y, s.img.h.t), le(0, x), lt(x, W))])
        if s.c == 1: goals.append([eq(rs, W), eq(lin, p.off), le(add(p.off, n), mul(W, s.img.h.t))])
        best = None
        if e.quiet: goals = []
        for gl in goals:
            if all(g is True or (not isc(g) and e.decide(st, g) is True) for g in gl): best = And(*gl); break
        if best is not None: e.oblige(st, best, 'post', 'the bytes written are the next pixels, in row order')
        elif not e.quiet: e.oblige(st.copy(), And(*goals[0]), 'post', 'the bytes written are the next pixels, in row order')
        s.set(st, LIN, add(lin, n))
    def intercept(s, e, st, name, args):
        if name == 'fopen':
            e.oblige(st, eq(s.g(st, OPEN), 0), 'post', 'the file is opened once')
            m = cstr_const(e, args[1])
            e.oblige(st, m is not None and m[:1] == b'w' and args[0].obj is s.name_ and isc(args[0].off) and args[0].off == 0, 'post', 'the named file is opened for writing')
            bad = st.copy(); bad.ghost['no file'] = True
            s.set(st, OPEN, 1)
            return [Out('ret', st, PV(s.f, 0)), Out('ret', bad, NULL)]
        mine = lambda p: isinstance(p, PV) and p.obj is s.f
        if name == 'fprintf' and mine(args[0]):
            f = cstr_const(e, args[1])
            if f is None: raise Unsupported('unknown format')
            s.used(st); s.fmt(st, f, args[2:]); ok = s.wrote(st)
            r = e.fresh(st, 'i32', 'printed', -1, 1 << 20); st.assume(eq_iff(ok, le(0, r.t)))
            return [Out('ret', st, r)]
        if name in ('fputs',) and mine(args[1]):
            c = cstr_const(e, args[0])
            if c is None: raise Unsupported('unknown text')
            s.used(st); s.text(st, c); ok = s.wrote(st)
            r = e.fresh(st, 'i32', 'fputs', -1, 1 << 20); st.assume(eq_iff(ok, le(0, r.t)))
            return [Out('ret', st, r)]
        if name in ('fputc', 'putc') and mine(args[1]):
            s.used(st); c = e.U(st, args[0])
            if not isc(c): raise Unsupported('single bytes written')
            s.text(st, bytes([c % 256])); ok = s.wrote(st)
            r = e.fresh(st, 'i32', 'fputc', -1, 255); st.assume(eq_iff(ok, le(0, r.t)))
            return [Out('ret', st, r)]
        if name == 'fwrite' and mine(args[3]):
            s.used(st)
            n = mul(e.U(st, args[1]), e.U(st, args[2]))
            e.valid(st, args[0], n, 'fwrite source')
            c = cstr_const(e, args[0])
            if c is not None and isc(n): s.text(st, c[:n])
            else: s.pixels(e, st, args[0], n)
            ok = s.wrote(st)
            r = e.fresh(st, 'i64', 'written', 0, (1 << 63) - 1); st.assume(And(le(r.t, e.U(st, args[2])), eq_iff(ok, eq(r.t, e.U(st, args[2])))))
            return [Out('ret', st, r)]
        if name == 'ferror' and mine(args[0]):
            s.used(st)
            r = e.fresh(st, 'i32', 'ferror'); st.assume(eq_iff(eq(r.t, 0), eq(s.g(st, ERR), 0)))
            return [Out('ret', st, r)]
        if name == 'fclose' and mine(args[0]):
            s.used(st); s.set(st, OPEN, 2)
            r = e.fresh(st, 'i32', 'fclose', -1, 0)
            s.set(st, ERR, ite(eq(r.t, 0), s.g(st, ERR), 1))
            return [Out('ret', st, r)]
        if name == 'fflush' and mine(args[0]):
            s.used(st); ok = s.wrote(st); r = e.fresh(st, 'i32', 'fflush', -1, 0); st.assume(eq_iff(ok, eq(r.t, 0)))
            return [Out('ret', st, r)]
    def loop_cands(s, e, L):
        W, out = mul(s.c, s.img.w.t), []
        from ..engine import View
        lin = lambda v: s.g(v.st, LIN)
        if L.outer:
            for (Lo, ko, envo) in L.outer: out.append(Cand('bytes so far: full rows and k pixels', lambda v, ko=ko: eq(lin(v), add(mul(ko, W), mul(s.c, v.k))), strong=True))
        out.append(Cand('bytes so far: k full rows', lambda v: eq(lin(v), mul(v.k, W)), strong=True))
        out.append(Cand('bytes so far: k pixels', lambda v: eq(lin(v), mul(s.c, v.k)), strong=True))
        out.append(Cand('the error indicator is a flag', lambda v: And(le(0, s.g(v.st, ERR)), le(s.g(v.st, ERR), 1))))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        opened = not st.ghost.get('no file')
        if o.kind != 'ret':
            e.oblige(st, s.fatal and (True if not opened else eq(s.g(st, ERR), 1)), 'post', 'ends the program only when a variant that may meets an error'); return
        e.oblige(st, s.g(st, OPEN) == 2 if opened and isc(s.g(st, OPEN)) else eq(s.g(st, OPEN), 2 if opened else 0), 'post', 'the stream is closed')
        if s.fatal: ok = True
        else: ok = eq(e.S(st, o.ret), 0)
        if not opened: e.oblige(st, Not(ok) if not isc(ok) else not ok, 'post', 'failure when the file cannot be opened'); return
        e.oblige(st, eq_iff(ok, eq(s.g(st, ERR), 0)), 'post', 'success exactly when every write and the close succeeded')
        e.oblige(st, eq(s.g(st, HST), DONE_STATE), 'post', 'the header is complete')
        e.oblige(st, eq(s.g(st, LIN), mul(mul(s.c, s.img.w.t), s.img.h.t)), 'post', 'all pixels are written')


DONE_STATE = 99


def eq_iff(a, b):
    if isc(a) and isc(b): return a == b
    return zb(a) == zb(b)


@reg
class SavePnm(Save): pass


@reg
class XSavePnm(Save):
    name = 'nx_image_xsave_pnm'; fatal = True


class ReadData(Contract):
    name = 'read_pnm_data'
    unroll = 'inner'
    cases = tuple('%s/%d%d' % (sh, a, b) for sh in ('empty', 'owned') for a in (GRAY, RGBA) for b in (GRAY, RGBA))
    def setup(s, e, case):
        b = B(e); s.e = e; sh, tt = case.split('/'); s.t, s.pt = int(tt[0]), int(tt[1]); s.c = 1 if s.pt == GRAY else 3
        s.img = mk_img(b, 'img', sh, dtype=UC if sh != 'empty' else None)
        s.f = mk_file(b, 'pnm', readable=True); s.f.data.ro = True
        s.w, s.h = b.int('width', 32, 1, IMAX // 8), b.int('height', 32, 1, IMAX // 8)
        b.st.assume(le(mul(s.w.t, s.h.t), IMAX // 8))
        return b.st, [PV(s.img, 0), IV(32, s.t), PV(s.f, 0), s.w, s.h, IV(32, s.pt)], b.aux()
    def src(s, t, y, x, ch): return s.e.U(t, s.e.base_read(t, s.f.data, None, add(s.f.pos0, add(mul(y, mul(s.c, s.w.t)), add(mul(s.c, x), ch))), 'i8'))
    def fin(s, t, co):
        if s.t == GRAY:
            y, x = co
            return s.src(t, y, x, 0) if s.pt == GRAY else clamp8(s.e, t, gray(*[s.src(t, y, x, c) for c in range(3)]))
        y, x, c = co
        if s.pt == GRAY: return ite(lt(c, 3), s.src(t, y, x, 0), 255)
        return ite(lt(c, 3), s.src(t, y, x, ite(lt(c, 3), c, 0)), 255)
    def grid(s, rs):
        if s.t == GRAY: return (s.h.t, s.w.t), lambda y, x: add(mul(y, rs), x)
        return (s.h.t, s.w.t, 4), lambda y, x, c: add(mul(y, rs), add(mul(4, x), c))
    def obj(s, st): return F(s.e, st, s.img, 'data').obj
    def loop_cands(s, e, L):
        out = []; W = mul(s.c, s.w.t)
        p = lambda v: sub(pos(e, v.st, s.f), s.f.pos0)
        for (Lo, ko, envo) in L.outer: out.append(Cand('read so far: full rows and k pixels', lambda v, ko=ko: eq(p(v), add(mul(ko, W), mul(s.c, v.k))), strong=True))
        out.append(Cand('read so far: k full rows', lambda v: eq(p(v), mul(v.k, W)), strong=True))
        out.append(Cand('read so far: k pixels', lambda v: eq(p(v), mul(s.c, v.k)), strong=True))
        out.append(Cand('the position is in the file', lambda v: le(pos(e, v.st, s.f), s.f.len), strong=True))
        ob = s.obj(L.st0)
        if ob is None: return out
        rs = e.S(L.st0, F(e, L.st0, s.img, 'row_stride')); dims, enc = s.grid(rs)
        reg = [('row < k', lambda v, co: lt(co[0], v.k))] if not L.outer else []
        for (Lo, ko, envo) in L.outer: reg.append(('row = outer k, column < k', lambda v, co, ko=ko: And(eq(co[0], ko), lt(co[1], v.k))))
        return out + grid_cands(e, L, ob, 'i8', dims, enc, s.fin, regions=reg, auto=False)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        ok = eq(e.S(st, o.ret), 0); need = add(s.f.pos0, mul(mul(s.c, s.w.t), s.h.t))
        e.oblige(st, eq_iff(ok, le(need, s.f.len)), 'post', 'success exactly when the file holds all pixels')
        st = st.copy(); st.assume(ok)
        if not e.pr.feasible(st): return
        e.oblige(st, eq(pos(e, st, s.f), need), 'post', 'exactly the pixels are read')
        n = nch(s.t)
        for f, v in (('width', s.w.t), ('height', s.h.t), ('type', s.t), ('dtype', UC), ('n_channels', n)): e.oblige(st, eq(e.S(st, F(e, st, s.img, f)), v), 'post', 'result ' + f)
        rs = e.S(st, F(e, st, s.img, 'row_stride')); e.oblige(st, le(mul(n, s.w.t), rs), 'post', 'result stride')
        dims, enc = s.grid(rs); ob = s.obj(st)
        co = tuple(z3.Int(uid('c')) for _ in dims)
        for c, m in zip(co, dims): st.assume(And(le(0, c), lt(c, m)))
        st.coords.append(co)
        if not e.pr.feasible(st): return
        cur = e.read(st, ob, None, enc(*co), 'i8')
        e.oblige(st, same_int(e, st, cur, IV(8, s.fin(st, co), 0, 255)), 'post', 'pixel (x, y) for every x, y')


reg(ReadData)


class FormatHeader(Contract):
    """the format is decided by the first four bytes; unknown when the file cannot be opened or is shorter"""
    name = 'nx_image_file_format_from_header'
    files = FILES + ['src/nx_image_io.c']
    def setup(s, e, case):
        b = B(e); s.e = e; s.f = mk_file(b, 'file', readable=True); b.st.assume(eq(s.f.pos0, 0)); s.name_ = b.cstr('filename')
        s.f.data.ro = True
        return b.st, [PV(s.name_, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name == 'fopen':
            bad = st.copy(); bad.ghost['no file'] = True
            return [Out('ret', st, PV(s.f, 0)), Out('ret', bad, NULL)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        E = llir.consts('virg/nexus/nx_image_io.h', ['NX_IMAGE_FILE_FORMAT_' + x for x in ('UNKNOWN', 'PNM_ASCII', 'PNM_BINARY', 'JPEG', 'PNG')])
        r = e.S(st, o.ret); U, A, Bn, J, G = E
        if st.ghost.get('no file'): e.oblige(st, eq(r, U), 'post', 'unknown when the file cannot be opened'); return
        e.oblige(st, bool(st.ghost.get(('closed', s.f))), 'post', 'the stream is closed')
        m = [e.U(st, e.base_read(st, s.f.data, None, i, 'i8')) for i in range(4)]
        rng = lambda c, a, b: And(le(ord(a), c), le(c, ord(b)))
        want = ite(And(eq(m[0], 0x89), eq(m[1], 0x50), eq(m[2], 0x4e), eq(m[3], 0x47)), G,
                   ite(And(eq(m[0], 0xff), eq(m[1], 0xd8)), J,
                       ite(And(eq(m[0], ord('P')), rng(m[1], '4', '6')), Bn, ite(And(eq(m[0], ord('P')), rng(m[1], '1', '3')), A, U))))
        e.oblige(st, eq(r, ite(le(4, s.f.len), want, U)), 'post', 'format by magic number')


reg(FormatHeader)


I = z3.IntSort()
SKW, EOL, SKC = (z3.Function('pnm.' + n, I, I) for n in ('after_space', 'after_line', 'after_comments'))
NOK, NVAL, NEND = z3.Function('scan.ok', I, z3.BoolSort()), z3.Function('scan.value', I, I), z3.Function('scan.end', I, I)


class Load(Contract):
    """P5|P6, white space, comment lines, three numbers, one character, pixels: the pixels are read with the sizes of the header
    from the right position; failure otherwise. read_pnm_data is used by its contract."""
    name = 'nx_image_load_pnm'; fatal = False; unroll = False
    cases = ('-1', '0', '1')
    def setup(s, e, case):
        b = B(e); s.e = e; s.mode = int(case)
        s.img = mk_img(b, 'img', 'owned', dtype=UC)
        s.name_ = b.cstr('filename')
        s.f = mk_file(b, 'file', readable=True); s.f.data.ro = True; b.st.assume(eq(s.f.pos0, 0))
        return b.st, [PV(s.img, 0), PV(s.name_, 0), IV(32, s.mode)], b.aux()
    # ---- the header language
    def d(s, t, p): return s.e.U(t, s.e.base_read(t, s.f.data, None, p, 'i8'))
    def unfold(s, t, p):
        """the defining equations of the skipping functions at p"""
        p = unz(zi(p)) if not isc(p) else p
        if isc(p) and p < 0: return
        key = ('pnm', p if isc(p) else zi(p).get_id())
        if key in t.inst: return
        t.inst.add(key)
        p = zi(p); L = s.f.len
        ine = And(p >= 0, lt(p, L))
        c = s.d(t, p)
        sp = And(ine, Or(eq(c, 32), eq(c, 10), eq(c, 9)))
        t.assume(SKW(p) == z3.If(zb(sp), SKW(p + 1), p))
        t.assume(EOL(p) == z3.If(zb(ine), z3.If(zb(eq(c, 10)), p + 1, EOL(p + 1)), -1))
        t.assume(SKC(p) == z3.If(zb(And(ine, eq(c, 35))), z3.If(EOL(p) < 0, -1, SKC(EOL(p))), p))
    def number(s, t, p):
        """one %d at p"""
        p = zi(p)
        t.assume(Implies(NOK(p), And(p >= 0, p < NEND(p), le(NEND(p), s.f.len), NVAL(p) >= -(1 << 31), NVAL(p) < (1 << 31))))
        return NOK(p), NVAL(p), NEND(p)
    def cur(s, v, c): return ite(eq(c, -1), s.f.len, sub(pos(s.e, v.st, s.f), 1))
    def loop_cands(s, e, L):
        out = []; f = s.f
        for a in ints(L):
            if a[0] != 'phi': continue
            def pts(v, a=a):
                c = v.get(a); p = sub(pos(e, v.st, f), 1)
                for q in (p, sub(p, 1), f.len, sub(f.len, 1), 2): s.unfold(v.st, q)
                return c
            def ch(v, a=a):
                c = pts(v, a); p = pos(e, v.st, f)
                return And(le(3, p) if False else le(2, p), Or(And(eq(c, -1), eq(p, f.len)), And(le(3, p), le(p, f.len), eq(c, s.d(v.st, sub(p, 1))))))
            out.append(Cand('%s is the character before the position, or the end' % a[1], ch, strong=True))
            out.append(Cand('only white space so far (%s)' % a[1], lambda v, a=a: eq(SKW(zi(s.cur(v, pts(v, a)))), SKW(2)), strong=True))
            def com(v, a=a):
                c = pts(v, a); s.unfold(v.st, SKW(2))
                return eq(SKC(zi(s.cur(v, c))), SKC(SKW(2)))
            out.append(Cand('only comments so far (%s)' % a[1], com, strong=True))
            def line(v, a=a):
                c0 = s.cur(View0(L), View0(L).get(a)); c = pts(v, a); s.unfold(v.st, c0)
                return eq(EOL(zi(s.cur(v, c))), EOL(zi(c0)))
            out.append(Cand('same line (%s)' % a[1], line, strong=True))
        return out
    def measures(s, e, L):
        for a in ints(L):
            if a[0] == 'phi': yield ('characters left', lambda v, a=a: add(mul(2, sub(s.f.len, pos(e, v.st, s.f))), ite(eq(v.get(a), -1), 0, 1)))
    def intercept(s, e, st, name, args):
        f = s.f
        if name == 'fopen':
            m = cstr_const(e, args[1])
            e.oblige(st, m is not None and m[:1] == b'r' and args[0].obj is s.name_ and isc(args[0].off) and args[0].off == 0, 'post', 'the named file is opened for reading')
            bad = st.copy(); bad.ghost['no file'] = True
            return [Out('ret', st, PV(f, 0)), Out('ret', bad, NULL)]
        mine = lambda p: isinstance(p, PV) and p.obj is f
        if name in ('fscanf', '__isoc99_fscanf') and mine(args[0]):
            fmt = cstr_const(e, args[1])
            if fmt is None: raise Unsupported('unknown format')
            return s.scan(e, st, fmt, args[2:])
        if name == 'ungetc' and mine(args[1]):
            c = e.S(st, args[0]); p = pos(e, st, f)
            e.oblige(st, Or(eq(c, -1), And(le(1, p), eq(c, s.d(st, sub(p, 1))))), 'pre', 'the character pushed back is the one read last')
            e.write(st, f, None, 0, 'i64', IV(64, ite(eq(c, -1), p, sub(p, 1)), 0, 1 << 62))
            return [Out('ret', st, IV(32, c))]
        if name == 'ferror' and mine(args[0]):
            r = e.fresh(st, 'i32', 'ferror'); st.ghost['bad'] = Or(st.ghost.get('bad', False), ne(r.t, 0))
            return [Out('ret', st, r)]
        if name == 'fclose' and mine(args[0]):
            e.oblige(st, not st.ghost.get(('closed', f)), 'memory-safety', 'stream closed once'); st.ghost[('closed', f)] = True
            r = e.fresh(st, 'i32', 'fclose', -1, 0); st.ghost['bad'] = Or(st.ghost.get('bad', False), ne(r.t, 0))
            return [Out('ret', st, r)]
        if name == 'read_pnm_data':
            im_, it, ff, w, h, pt = args
            W, H, LV, start = s.fields(st); P6 = eq(s.d(st, 1), ord('6'))
            e.oblige(st, im_.obj is s.img and ff.obj is f, 'pre', 'pixels of this file into this image')
            e.oblige(st, s.head(st), 'post', 'pixels are read only after a complete header')
            e.oblige(st, And(eq(e.S(st, w), W), eq(e.S(st, h), H)), 'post', 'sizes of the header')
            e.oblige(st, eq(e.S(st, pt), ite(P6, RGBA, GRAY)), 'post', 'pixel format of the header')
            e.oblige(st, eq(e.S(st, it), ite(P6, RGBA, GRAY) if s.mode < 0 else s.mode), 'post', 'image type of the mode')
            e.oblige(st, And(le(1, W), le(1, H), le(mul(W, H), IMAX // 8)), 'pre', 'sizes within the contract of read_pnm_data')
            p = pos(e, st, f)
            e.oblige(st, Or(eq(p, start), And(eq(p, f.len), le(f.len, start))), 'post', 'pixels are read from the character after the header')
            ok = le(add(p, mul(ite(P6, 3, 1), mul(W, H))), f.len)
            r = e.fresh(st, 'i32', 'read', -1, 0); st.assume(eq_iff(eq(r.t, 0), ok))
            st.ghost['read'] = ok
            return [Out('ret', st, r)]
    def scan(s, e, st, fmt, args):
        """%c reads a byte, %d a number; white space in the format skips white space (a number skips it anyway)"""
        f = s.f; outs = []; n = 0; args = list(args); toks = []
        i = 0
        while i < len(fmt):
            if fmt[i:i + 2] in (b'%c', b'%d'): toks.append(fmt[i + 1:i + 2]); i += 2
            elif fmt[i] in WS:
                if fmt[i + 1:].lstrip()[:2] == b'%d': i += 1
                else: raise Unsupported('format %r' % fmt)
            else: raise Unsupported('format %r' % fmt)
        for k in toks:
            p = pos(e, st, f); bad = st.copy()
            if k == b'c':
                st.assume(lt(p, f.len)); bad.assume(le(f.len, p))
                if e.pr.feasible(bad): outs.append(Out('ret', bad, IV(32, n if n else -1)))
                if not e.pr.feasible(st): return outs
                c = args.pop(0); e.valid(st, c, 1, 'scanned character', wr=True)
                e.write(st, c.obj, c.idx, c.off, 'i8', IV(8, s.d(st, p), 0, 255))
                e.write(st, f, None, 0, 'i64', IV(64, add(p, 1), 0, 1 << 62))
            else:
                ok, v, en = s.number(st, p)
                bad = st.copy(); st.assume(ok); bad.assume(Not(ok))
                r = e.fresh(bad, 'i32', 'scanned', -1, n); bad.assume(Or(eq(r.t, n), eq(r.t, -1)))
                outs.append(Out('ret', bad, r))
                if not e.pr.feasible(st): return outs
                c = args.pop(0); e.valid(st, c, 4, 'scanned number', wr=True)
                e.write(st, c.obj, c.idx, c.off, 'i32', IV(32, v, -(1 << 31), (1 << 31) - 1))
                e.write(st, f, None, 0, 'i64', IV(64, en, 0, 1 << 62))
            n += 1
        outs.append(Out('ret', st, IV(32, n)))
        return outs
    def fields(s, t):
        q = SKC(SKW(2)); s.unfold(t, 2); s.unfold(t, SKW(2)); s.unfold(t, s.f.len)
        _, W, q1 = s.number(t, q); _, H, q2 = s.number(t, q1); _, V, q3 = s.number(t, q2)
        return W, H, V, q3 + 1
    def head(s, t):
        q = SKC(SKW(2)); f = s.f
        W, H, V, start = s.fields(t)
        q1 = NEND(q); q2 = NEND(q1)
        return And(le(2, f.len), eq(s.d(t, 0), ord('P')), Or(eq(s.d(t, 1), ord('5')), eq(s.d(t, 1), ord('6'))), q >= 0, NOK(q), NOK(q1), NOK(q2),
                   W > 0, H > 0, V > 0, V <= 255, le(mul(W, H), IMAX // 8))
    def post(s, e, st0, o, args, aux):
        st = o.st; f = s.f
        good = False
        if not st.ghost.get('no file'):
            W, H, V, start = s.fields(st); P6 = eq(s.d(st, 1), ord('6'))
            good = And(s.head(st), le(add(start, mul(ite(P6, 3, 1), mul(W, H))), f.len))
        bad = st.ghost.get('bad', False)
        neg = lambda x: Not(x) if not isc(x) else not x
        if o.kind != 'ret':
            e.oblige(st, s.fatal, 'post', 'returns')
            e.oblige(st, Or(neg(good), bad), 'post', 'a valid file is not refused'); return
        ok = True if s.fatal else eq(e.S(st, o.ret), 0)
        if not st.ghost.get('no file'): e.oblige(st, bool(st.ghost.get(('closed', f))), 'post', 'the stream is closed')
        e.oblige(st, Implies(ok, And(good, neg(bad))), 'post', 'success only for a complete file read without errors')
        e.oblige(st, Implies(ok, st.ghost.get('read', False)), 'post', 'success only when the pixels were read')
        e.oblige(st, Implies(And(good, neg(bad)), ok), 'post', 'a valid file is not refused')


reg(Load)


@reg
class XLoad(Load):
    name = 'nx_image_xload_pnm'; fatal = True
