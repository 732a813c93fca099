"""nx_brief_extractor.c, nx_keypoint.c, nx_fast_detector.c: descriptors, stored keypoints and the adaptive threshold under contract.
Scales are exact rationals (single precision rounding of the scale ratio is not modelled); the FAST decision trees are checked by the harness."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, div_exact
from ..loops import *
from ..alg import *
from ..models_io import mk_file, pos
from .. import llir
from fractions import Fraction
from . import image as im

BE, KP, PYR, IMG, FD = ('virg/nexus/nx_brief_extractor.h', 'struct NXBriefExtractor'), ('virg/nexus/nx_keypoint.h', 'struct NXKeypoint'), ('virg/nexus/nx_image_pyr.h', 'struct NXImagePyr'), ('virg/nexus/nx_image.h', 'struct NXImage'), ('virg/nexus/nx_fast_detector.h', 'struct NXFastDetector')
FILES = ['src/nx_brief_extractor.c', 'src/nx_keypoint.c', 'src/nx_fast_detector.c', 'src/nx_math.c', 'src/nx_alloc.c']
CONTRACTS, OWN = {}, []
I, R = z3.IntSort(), z3.RealSort()
M = 1 << 15


def reg(cls, own=True):
    CONTRACTS[cls.name] = cls()
    if own: OWN.append(cls.name)
    return cls


def proves(e, st, a, b):
    d = sub(a, b)
    if isc(d): return d == 0
    d = unz(z3.simplify(zi(d)))
    if isc(d): return d == 0
    return e.decide(st, eq(a, b)) is True


def div_by(e, st, off, w):
    if isc(off): return off // w
    d = div_exact(off, w)
    if d is not None: return d
    q = unz(z3.simplify(zi(off) / w))
    return q


# ---------------------------------------------------------------------------------------- the threshold
class Adapt(Contract):
    """three up above ~99% of the wanted keypoints, three down up to ~70%, one down up to ~90%, never outside 5..250"""
    name = 'nx_fast_detector_adapt_threshold'
    def setup(s, e, case):
        b = B(e); s.t0 = b.int('threshold', 32, 5, 250)
        s.d = b.struct('detector', *FD, {'threshold': ('i32', s.t0)})
        s.n, s.m = b.int('n_keys', 32, 0), b.int('max_n_keys', 32, 0, ((1 << 31) - 1) // 1014)
        return b.st, [PV(s.d, 0), s.n, s.m], b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        t = e.S(st, fld(e, st, s.d, 'threshold')); n, m, t0 = s.n.t, s.m.t, s.t0.t
        up, lo, vl = [le(idiv(mul(c, m), 1024), n) if c == 1014 else le(n, idiv(mul(c, m), 1024)) for c in (1014, 921, 716)]
        mx, mn = lambda a, c: ite(lt(a, c), c, a), lambda a, c: ite(lt(a, c), a, c)
        e.oblige(st, eq(t, ite(up, mn(250, add(t0, 3)), ite(vl, mx(5, sub(t0, 3)), ite(lo, mx(5, sub(t0, 1)), t0)))), 'post', 'the threshold moves towards the wanted number of keypoints')
        e.oblige(st, And(le(5, t), le(t, 250)), 'post', 'the threshold stays within 5..250')


reg(Adapt)


# ---------------------------------------------------------------------------------------- BRIEF
def lay(): return llir_offsets(*BE, ['radius', 'n_octets', 'offsets', 'offset_limits', 'pyr_level_offset'])


def mk_brief(b, ro=False, limits=True, maxr=1 << 12):
    """an extractor whose limits bound its offsets"""
    l = lay(); no = b.int('n_octets', 32, 1, 1 << 20); r = b.int('radius', 32, 4, maxr); plo = b.int('pyr_level_offset', 32, 0, 64)
    o = Obj('extractor', l[''][1], kind='hparam', ro=ro); b.reg(o)
    lim = [b.int('limit', 32, -M, M) for _ in range(4)]
    offs = b.array('offsets', 'i32', mul(32, no.t), ro=ro)
    def rd(st, idx, off, ty, t):
        if ty != 'i32': return []
        f = [t >= -M, t <= M]
        if limits:
            for c in range(4):
                q = 2 * (c % 2); hit = zi(off) % 16 == 4 * c
                f.append(z3.Implies(hit, z3.And(zi(lim[q].t) <= t, t <= zi(lim[q + 1].t))))
        return f
    offs.onread = [rd]
    o.cells.update({l['radius'][0]: ('i32', r), l['n_octets'][0]: ('i32', no), l['offsets'][0]: ('ptr', PV(offs, 0)), l['pyr_level_offset'][0]: ('i32', plo)})
    for q in range(4): o.cells[l['offset_limits'][0] + 4 * q] = ('i32', lim[q])
    o.no, o.r, o.plo, o.lim, o.offs = no, r, plo, lim, offs
    return o


def mk_pyr(b):
    """a pyramid of gray images: level l has WI(l) x HE(l) pixels and the positive scale SC(l)"""
    e = b.e; F = lambda n, *a: z3.Function(uid(n), *a)
    WI, HE, RS, SC, SG = F('width', I, I), F('height', I, I), F('stride', I, I), F('scale', I, R), F('sigma', I, R)
    n = b.int('n_levels', 32, 1, 1 << 10)
    li, ll, lp = llir_offsets(*IMG, ['width', 'height', 'type', 'dtype', 'n_channels', 'data', 'row_stride']), llir_offsets('virg/nexus/nx_image_pyr.h', 'struct NXImagePyrLevel', ['img', 'sigma', 'scale']), llir_offsets(*PYR, ['n_levels', 'levels'])
    pix = Obj('pixels', lambda i: RS(zi(i)) * HE(zi(i)), kind='hparam', fam=True, layout=None, ro=True, unsigned=True); b.reg(pix)
    imgs = Obj('images', li[''][1], kind='hparam', fam=True, layout=None, ro=True)
    def facts(st, i):
        i = zi(i); st.assume(And(WI(i) >= 1, WI(i) <= M, HE(i) >= 1, HE(i) <= M, RS(i) >= WI(i), RS(i) <= M, RS(i) * HE(i) < (1 << 31), SC(i) > 0))
    def ibase(st, idx, off, ty):
        facts(st, idx); i = zi(idx)
        for f, v in (('width', WI), ('height', HE), ('row_stride', RS), ('type', None), ('dtype', None), ('n_channels', None), ('data', 0)):
            if (ty == 'ptr') == (f == 'data') and proves(e, st, off, li[f][0]):
                if f == 'data': return PV(pix, 0, idx)
                return IV(32, v(i), 1, M) if v is not None else IV(32, 1 if f == 'n_channels' else llir_enum('NX_IMAGE_GRAYSCALE' if f == 'type' else 'NX_IMAGE_UCHAR'))
        return None
    imgs.base = ibase; b.reg(imgs)
    S = ll[''][1]
    lev = Obj('levels', mul(S, n.t), kind='hparam', layout=None, ro=True)
    def lbase(st, idx, off, ty):
        for f in ('img', 'sigma', 'scale'):
            if (ty == 'ptr') != (f == 'img'): continue
            q = div_exact(unz(z3.simplify(zi(sub(off, ll[f][0])))), S) if not isc(off) else ((off - ll[f][0]) // S if (off - ll[f][0]) % S == 0 else None)
            if q is None: continue
            facts(st, q)
            return PV(imgs, 0, q) if f == 'img' else FV((SC if f == 'scale' else SG)(zi(q)), False)
        return None
    lev.base = lbase; b.reg(lev)
    p = Obj('pyramid', lp[''][1], kind='hparam', ro=True); b.reg(p)
    p.cells.update({lp['n_levels'][0]: ('i32', n), lp['levels'][0]: ('ptr', PV(lev, 0))})
    for k, v in dict(n=n, WI=WI, HE=HE, RS=RS, SC=SC, SG=SG, pix=pix, facts=facts).items(): setattr(p, k, v)
    return p


def llir_enum(n): return llir.consts('virg/nexus/nx_image.h', [n])[0]


class Limits(Contract):
    """the limits are the least and largest offset of the test pairs, per coordinate"""
    name = 'nx_brief_extractor_update_limits'; unroll = False
    def setup(s, e, case):
        b = B(e); s.be = mk_brief(b, limits=False); s.l = lay(); offs = s.be.offs
        g = lambda t, i, c: zi(e.S(t, e.read(t, offs, None, add(mul(16, i), 4 * c), 'i32')))
        mn, mx = (lambda a, x: z3.If(x < a, x, a)), (lambda a, x: z3.If(x > a, x, a))
        s.F = []
        for q in range(4):
            f, z = (mn, (1 << 31) - 1) if q % 2 == 0 else (mx, -(1 << 31) + 1)
            s.F.append(Sum('limit%d' % q, lambda t, i, q=q, f=f: f(g(t, i, q // 2), g(t, i, q // 2 + 2)), real=False, zero=z, step=f))
        return b.st, [PV(s.be, 0)], b.aux()
    def loop_cands(s, e, L):
        out = []
        for S in s.F: out += sum_cands(L, S)[::2]
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        for q in range(4):
            v = e.S(st, e.read(st, s.be, None, s.l['offset_limits'][0] + 4 * q, 'i32'))
            e.oblige(st, eq(v, s.F[q].at(st, mul(8, s.be.no.t))), 'post', ('least x', 'largest x', 'least y', 'largest y')[q])
        for f, v in (('radius', s.be.r), ('n_octets', s.be.no), ('pyr_level_offset', s.be.plo)): e.oblige(st, eq(e.S(st, e.read(st, s.be, None, s.l[f][0], 'i32')), v.t), 'frame', f)


reg(Limits)


class CheckPoint(Contract):
    """accepted exactly when the sampled level exists and the box of all sample positions, scaled to it, lies inside its image"""
    name = 'nx_brief_extractor_check_point_pyr'; named_trunc = True
    def setup(s, e, case):
        b = B(e); s.be = mk_brief(b, ro=True); s.p = mk_pyr(b)
        s.x, s.y = b.int('x', 32, -M, M), b.int('y', 32, -M, M); s.lev = b.int('level', 32, 0, 1 << 10); b.st.assume(lt(s.lev.t, s.p.n.t))
        return b.st, [PV(s.be, 0), PV(s.p, 0), s.x, s.y, s.lev], b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        r = Not(eq(e.U(st, o.ret), 0)); p, be = s.p, s.be; sl = add(s.lev.t, be.plo.t)
        out = le(p.n.t, sl)
        for no, st in branch(e, st, out):
            if no: e.oblige(st, Not(r), 'post', 'no such level: refused'); continue
            p.facts(st, sl); p.facts(st, s.lev.t)
            f = p.SC(zi(s.lev.t)) / p.SC(zi(sl)); T = lambda a, q: e.tr(st, z3.ToReal(zi(add(a, be.lim[q].t))) * f)
            W, H = p.WI(zi(sl)), p.HE(zi(sl))
            e.oblige(st, eq(r, And(T(s.x.t, 0) >= 0, T(s.x.t, 1) < W, T(s.y.t, 2) >= 0, T(s.y.t, 3) < H)), 'post', 'accepted exactly when the box of samples is inside')


reg(CheckPoint)


class Compute(Contract):
    """bit b of octet i tells whether the first sample of test 8i+b is brighter than the second (most significant bit first); samples are read from the scaled level only"""
    name = 'nx_brief_extractor_compute_pyr'; named_trunc = True; unroll = False; data_conds = False; theta = False
    def setup(s, e, case):
        b = B(e); be = s.be = mk_brief(b, ro=True); p = s.p = mk_pyr(b); st = b.st; s.e = e
        s.x, s.y = b.int('x', 32, -M, M), b.int('y', 32, -M, M); s.lev = b.int('level', 32, 0, 1 << 10); s.rot = []
        sl = s.sl = add(s.lev.t, be.plo.t); st.assume(lt(sl, p.n.t)); p.facts(st, sl); p.facts(st, s.lev.t)
        s.f = p.SC(zi(s.lev.t)) / p.SC(zi(sl)); W, H = s.W, s.H = p.WI(zi(sl)), p.HE(zi(sl))
        s.desc = b.array('desc', 'i8', be.no.t, kind='param')
        args = [PV(be, 0), PV(p, 0), s.x, s.y, s.lev]
        if s.theta:
            s.th = b.real('theta'); args.append(s.th)
            s.C, s.S = z3.Function(uid('cos times'), R, R), z3.Function(uid('sin times'), R, R); s.rot = [(e.uf1('cos')(s.th.t), s.C), (e.uf1('sin')(s.th.t), s.S)]
        s.F, s.G = z3.Real(uid('ratio')), z3.Function(uid('scaled'), R, R)      # the scale ratio; G(v) = v * ratio
        st.assume(And(s.F > 0, s.F == s.f))
        u, w, g = z3.Real(uid('u')), z3.Real(uid('w')), z3.Real(uid('g')); e.oblige(st, z3.Implies(z3.And(u <= w, g > 0), u * g <= w * g), 'lemma', 'scaling is monotone')
        i, j, k = z3.Int(uid('i')), z3.Int(uid('j')), z3.Int(uid('k')); e.oblige(st, z3.Implies(z3.And(i >= 0, i <= j - 1, k >= 0), z3.And(k * i >= 0, k * i <= k * j - k)), 'lemma', 'rows lie inside the image')
        if not s.theta:   # the point was accepted
            T = lambda a, q: e.tr(st, s.G(z3.ToReal(zi(add(a, be.lim[q].t)))))
            st.assume(And(T(s.x.t, 0) >= 0, T(s.x.t, 1) < W, T(s.y.t, 2) >= 0, T(s.y.t, 3) < H))
            be.offs.onread.append(s.mono)
        s.D = z3.Function(uid('octet'), I, I, I)
        return st, args + [PV(s.desc, 0)], b.aux()
    def mono(s, st, idx, off, ty, t):
        """instances of the lemmas for an offset read"""
        if ty != 'i32': return []
        out = []
        for c in range(4):
            a, q = (s.x.t, s.y.t)[c % 2], 2 * (c % 2); m = lambda v: s.G(z3.ToReal(zi(add(a, v)))); hit = zi(off) % 16 == 4 * c
            out.append(z3.Implies(hit, z3.And(m(s.be.lim[q].t) <= m(t), m(t) <= m(s.be.lim[q + 1].t))))
        return out
    def fbin(s, e, st, op, x, y):
        if op == 'fdiv' and not isc(x) and not isc(y) and zr(x).eq(s.p.SC(zi(s.lev.t))) and e.decide(st, eq(y, s.p.SC(zi(s.sl)))) is True: return s.F
        if op == 'fmul':
            for a, c in ((x, y), (y, x)):
                if isc(c): continue
                if zr(c).eq(s.F):
                    T = e.tr(st, s.G(zr(a))); k = s.p.RS(zi(s.sl))
                    st.assume(z3.Implies(z3.And(T >= 0, T <= s.H - 1), z3.And(k * T >= 0, k * T <= k * s.H - k)))
                    return s.G(zr(a))
                for U, f in s.rot:
                    if zr(c).eq(U): return f(zr(a))
    def xy(s, t, i, q):
        """where sample q of test i is taken"""
        e = s.e; off = lambda c: e.S(t, e.read(t, s.be.offs, None, add(mul(16, i), 8 * q + 4 * c), 'i32'))
        return [e.tr(t, s.G(z3.ToReal(zi(add(a, off(c)))))) for c, a in ((0, s.x.t), (1, s.y.t))]
    def bit(s, t, i):
        e = s.e; v = []
        for q in range(2):
            x, y = s.xy(t, i, q)
            v.append(zi(e.U(t, e.read(t, s.p.pix, s.sl, add(mul(s.p.RS(zi(s.sl)), y), x), 'i8'))))
        return z3.If(v[0] > v[1], 1, 0)
    def octet(s, st, i, j):
        """D(i, j): the first j bits of octet i, with the equations around j"""
        e = s.e; i = zi(i)
        key = ('oct0', i.get_id())
        if key not in st.inst: st.inst.add(key); e.pr.keep.append(i); st.assume(s.D(i, 0) == 0)
        for c in ([j, sub(j, 1)] if not isc(j) else [j - 1]):
            if isc(c) and (c < 0 or c >= 8): continue
            key = ('oct', i.get_id(), c if isc(c) else zi(c).get_id())
            if key in st.inst: continue
            st.inst.add(key); c_ = zi(c); e.pr.keep.append(c_)
            st.assume(guarded(e, st, And(c_ >= 0, c_ < 8), lambda t: And(s.D(i, c_ + 1) == 2 * s.D(i, c_) + s.bit(t, 8 * i + c_))))
        return s.D(i, zi(j))
    def loop_cands(s, e, L):
        out = []
        for ph in L.phis:
            v0 = L.entry.get(ph.res)
            if isinstance(v0, PV) and v0.obj is s.be.offs and not L.outer: out.append(Cand('%s is at test 8k' % ph.res, lambda v, a=('phi', ph.res): eq(v.get(a), mul(128, v.k))))
        if L.outer:
            ko = L.outer[-1][1]
            def f(v, co):
                j, = co; d = And(le(0, j), lt(j, s.desc.size))
                def g(t):
                    cur = e.U(t, e.read(t, s.desc, None, j, 'i8')); ini = e.U(st_with(t, L.st0), e.read(st_with(t, L.st0), s.desc, None, j, 'i8'))
                    return And(Implies(Not(eq(j, ko)), eq(cur, ini)), Implies(eq(j, ko), guarded(e, t, eq(j, ko), lambda t2: eq(cur, s.octet(t2, ko, v.k)))))
                return guarded(e, v.st, d, g)
            out.append(QCand('octet k has its first bits, others as before', lambda v: s.desc, 1, 1, f))
            def below(v):
                d = s.octet(v.st, ko, v.k)
                return And(*[Implies(eq(v.k, c), And(le(0, d), lt(d, 1 << c))) for c in range(9)])
            out.append(Cand('the first bits are below 2^j', below, strong=True))
        else: out += map_cands(e, L, s.desc, 'i8', lambda t, j: IV(8, s.octet(t, j, 8), 0, 255))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        j = z3.Int(uid('j')); st.assume(And(j >= 0, j < s.be.no.t))
        e.oblige(st, eq(e.U(st, e.read(st, s.desc, None, j, 'i8')), s.octet(st, j, 8)), 'post', 'every octet holds the outcomes of its eight tests')


reg(Compute)


class ComputeTheta(Compute):
    """the same with the test pattern turned by theta; false exactly when a sample lies outside the image"""
    name = 'nx_brief_extractor_compute_pyr_at_theta'; theta = True
    def xy(s, t, i, q):
        e = s.e; o = [z3.ToReal(zi(e.S(t, e.read(t, s.be.offs, None, add(mul(16, i), 8 * q + 4 * c), 'i32')))) for c in (0, 1)]
        x, y = z3.ToReal(zi(s.x.t)), z3.ToReal(zi(s.y.t))
        return [e.tr(t, s.G(x + s.C(o[0]) + s.S(o[1]))), e.tr(t, s.G(y - s.S(o[0]) + s.C(o[1])))]
    def inside(s, t, i):
        out = []
        for q in range(2):
            x, y = s.xy(t, i, q); out += [x >= 0, x < s.W, y >= 0, y < s.H]
        return z3.And(*out)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        j = z3.Int(uid('j')); n = zi(s.be.no.t)
        for ok, s1 in branch(e, st, Not(eq(e.U(st, o.ret), 0))):
            if ok:
                s1.assume(And(j >= 0, j < n)); e.oblige(s1, eq(e.U(s1, e.read(s1, s.desc, None, j, 'i8')), s.octet(s1, j, 8)), 'post', 'every octet holds the outcomes of its eight tests')
            else:
                ks = counters(s1); ins = []
                for a in ks + [z3.IntVal(0)]:
                    for c in ks:
                        t = 8 * a + c if not a.eq(c) else a; ins.append(guarded(e, s1, And(t >= 0, t < 8 * n), lambda s2: s.inside(s2, t)))
                e.oblige(s1, Not(And(*ins)), 'post', 'refused only when a sample lies outside the image')


def counters(st):
    """loop counters mentioned on the path"""
    seen, out, stk = set(), [], list(st.pc)
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x) and x.decl().name().startswith('k!'): out.append(x)
        stk.extend(x.children())
    return out


reg(ComputeTheta)


# ---------------------------------------------------------------------------------------- Hamming distance
class Distance(Contract):
    """the number of bits in which the two descriptors differ"""
    name = 'nx_brief_extractor_descriptor_distance'; unroll = False; named_xor = True
    def setup(s, e, case):
        b = B(e); s.e = e; s.n = b.int('n_octets', 32, 0, 1 << 24); s.d = [b.array('desc%d' % i, 'i8', s.n.t, kind='param', ro=True) for i in range(2)]
        pop = s.pop = z3.Function(uid('popcount'), I, I)
        for i in range(256): b.st.assume(pop(i) == bin(i).count('1'))
        for m in e.mods:     # constant tables of bit counts: every entry is compared
            if not m.path.endswith('nx_brief_extractor.c'): continue
            for gn, g in m.globals.items():
                if g[1] is None or not g[2]: continue
                o = e.glob(gn, m)
                if o.size == 256 and len(o.cells) == 256 and all(o.cells.get(i, (0, IV(8, 99)))[1].t == bin(i).count('1') for i in range(256)):
                    e.oblige(b.st, True, 'post', 'the 256 entries of %s are the bit counts of their indices' % gn)
                    o.base = None; o.cells = {}
                    o.onread = [lambda st, idx, off, ty, t: [t == pop(zi(off)), t >= 0, t <= 8]]
        def term(t, i):
            v = [e.read(t, o, None, i, 'i8') for o in s.d]
            x = zi(e.U(t, e.ibin(t, 'xor', *[IV(32, e.U(t, y), 0, 255) for y in v], set(), 32))); t.assume(And(pop(x) >= 0, pop(x) <= 8)); return pop(x)
        s.S = Sum('differing bits', term, real=False)
        return b.st, [s.n] + [PV(o, 0) for o in s.d], b.aux()
    def loop_cands(s, e, L):
        out = [Cand('8k octets done', lambda v: le(mul(8, v.k), s.n.t), strong=True), Cand('k octets done', lambda v: le(v.k, s.n.t), strong=True)]
        for a in ints(L):
            for c in ints(L):
                if a == c or a in L.affine: continue
                def f(v, a=a, c=c):
                    i = v.get(c)
                    for j in range(-8, 9): s.S.at(v.st, add(i, j))
                    return And(eq(v.get(a), s.S.at(v.st, i)), le(0, v.get(a)), le(v.get(a), mul(8, i)))
                out.append(Cand('%s is the distance of the first %s octets' % (nm(a), nm(c)), f, strong=True))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, eq(e.S(st, o.ret), s.S.at(st, s.n.t)), 'post', 'the Hamming distance')


reg(Distance)


# ---------------------------------------------------------------------------------------- stored keypoints
KF = (('x', 'i32'), ('y', 'i32'), ('xs', 'f32'), ('ys', 'f32'), ('level', 'i32'), ('scale', 'f32'), ('sigma', 'f32'), ('score', 'f32'), ('ori', 'f32'), ('id', 'i64'))
KREC = sum(TSIZE[t] for _, t in KF)


def kfields():
    l = llir_offsets(*KP, [f for f, _ in KF]); at = 0
    for f, t in KF:
        yield f, t, l[f][0], at
        at += TSIZE[t]


class Keys(Contract):
    """base: n keypoints and a stream; record i of the stream is at pos0 + 44 i"""
    unroll = False; wr = True; fatal = False
    def setup(s, e, case):
        b = B(e); s.e = e; s.n = b.int('n', 32, 0, 1 << 24); s.sz = llir_offsets(*KP, ['x'])[''][1]
        s.f = mk_file(b, 'stream', readable=not s.wr); s.k = Obj('keys', mul(s.sz, s.n.t), kind='param', layout=None, ro=s.wr); b.reg(s.k)
        return b.st, [PV(s.k, 0), s.n, PV(s.f, 0)], b.aux()
    def cands(s, e, L, obj, enc, fin):
        out = [Cand('k records so far', lambda v: eq(pos(e, v.st, s.f), add(s.f.pos0, mul(KREC, v.k))), strong=True)]
        if not s.wr: out.append(Cand('the position is in the file', lambda v: le(pos(e, v.st, s.f), s.f.len), strong=True))
        for f, ty, so, fo in kfields():
            def q(v, co, ty=ty, so=so, fo=fo):
                i, = co
                def g(t):
                    off = enc(i, so, fo); cur = e.read(t, obj, None, off, ty)
                    r = guarded(e, t, lt(i, v.k), lambda t2: same(e, t2, cur, fin(t2, i, ty, so, fo)))
                    if obj is s.k: r = And(r, Implies(Not(lt(i, v.k)), same(e, t, cur, e.read(st_with(t, L.st0), obj, None, off, ty))))
                    return r
                return guarded(e, v.st, And(le(0, i), lt(i, s.n.t)), g)
            out.append(QCand('field %s of the first k records' % f, lambda v: obj, 1, lambda i, so=so, fo=fo: enc(i, so, fo), q))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        r = e.S(st, o.ret); p = sub(pos(e, st, s.f), s.f.pos0); s.outcome(e, st, r, p)
        i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, r))); st.coords.append((i,))
        if not e.pr.feasible(st): return
        for f, ty, so, fo in kfields():
            a = e.read(st, s.k, None, add(mul(s.sz, i), so), ty); c = e.read(st, s.f.data, None, add(add(s.f.pos0, mul(KREC, i)), fo), ty)
            e.oblige(st, same(e, st, a, c), 'post', 'field %s of every record' % f)


class KWrite(Keys):
    """the records of the keypoints in order, 44 bytes each; the result is the number of complete records"""
    name = 'nx_keypoint_write'
    def loop_cands(s, e, L):
        return s.cands(e, L, s.f.data, lambda i, so, fo: add(add(s.f.pos0, mul(KREC, i)), fo), lambda t, i, ty, so, fo: e.read(t, s.k, None, add(mul(s.sz, i), so), ty))
    def outcome(s, e, st, r, p):
        e.oblige(st, And(le(0, r), le(r, s.n.t), le(mul(KREC, r), p), lt(p, mul(KREC, add(r, 1)))), 'post', 'the number of complete records written')
        if 'write_failed' not in st.ghost and not any('fail' in str(k) for k in st.ghost): e.oblige(st, eq(r, s.n.t), 'post', 'all keypoints are written unless the stream fails')


class KRead(Keys):
    """the keypoints become the records of the stream; the result is the number of complete records, n when there are that many"""
    name = 'nx_keypoint_read'; wr = False
    def loop_cands(s, e, L):
        return s.cands(e, L, s.k, lambda i, so, fo: add(mul(s.sz, i), so), lambda t, i, ty, so, fo: e.read(t, s.f.data, None, add(add(s.f.pos0, mul(KREC, i)), fo), ty))
    def outcome(s, e, st, r, p):
        have = sub(s.f.len, s.f.pos0)
        e.oblige(st, And(le(0, r), le(r, s.n.t), le(mul(KREC, r), have)), 'post', 'no more records than the stream holds')
        e.oblige(st, Or(eq(r, s.n.t), lt(have, mul(KREC, add(r, 1)))), 'post', 'every complete record is read')


reg(KWrite); reg(KRead)


class KX:
    """the variants that end the program instead of reporting an incomplete list"""
    def post(s, e, st0, o, args, aux):
        st = o.st; more = lt(sub(s.f.len, s.f.pos0), mul(KREC, s.n.t)) if not s.wr else None
        if o.kind != 'ret': e.oblige(st, bool(st.ghost.get('io_failed')) if s.wr else more, 'post', 'ends the program only when the list is incomplete'); return
        i = z3.Int(uid('i')); e.oblige(st, eq(pos(e, st, s.f), add(s.f.pos0, mul(KREC, s.n.t))), 'post', 'returns only after all records')
        st.assume(And(i >= 0, lt(i, s.n.t))); st.coords.append((i,))
        if not e.pr.feasible(st): return
        for f, ty, so, fo in kfields():
            a = e.read(st, s.k, None, add(mul(s.sz, i), so), ty); c = e.read(st, s.f.data, None, add(add(s.f.pos0, mul(KREC, i)), fo), ty)
            e.oblige(st, same(e, st, a, c), 'post', 'field %s of every record' % f)


reg(type('kxw', (KX, KWrite), dict(name='nx_keypoint_xwrite', __doc__=KX.__doc__)))
reg(type('kxr', (KX, KRead), dict(name='nx_keypoint_xread', __doc__=KX.__doc__)))


# ---------------------------------------------------------------------------------------- test patterns
class Randomize(Contract):
    """every test pair lies within the radius and its points are at least three pixels apart, whatever the random numbers are; the limits are brought up to date last"""
    name = 'nx_brief_extractor_randomize_with_seed'; unroll = False; total = False; named_trunc = True
    trusts = ('termination of rejection sampling has probability 1 for radius >= 4, not proved',)
    def setup(s, e, case):
        b = B(e); s.e = e; s.be = mk_brief(b, limits=False); s.seed = b.int('seed', 32); s.smp = Obj('sampler', 4096, kind='param')
        u, c = z3.Real(uid('u')), z3.Real(uid('c')); e.oblige(b.st, z3.Implies(z3.And(u >= -z3.RealVal(1) / 2, u <= z3.RealVal(1) / 2, c > 0), z3.And(-c / 2 <= u * c, u * c <= c / 2)), 'lemma', 'samples are scaled to the radius')
        s.sq = z3.Function(uid('square'), I, I); i = z3.Int(uid('i')); e.oblige(b.st, z3.Implies(z3.And(i >= -8192, i <= 8192), z3.And(i * i >= 0, i * i <= 1 << 26)), 'lemma', 'squares of distances do not overflow')
        return b.st, [PV(s.be, 0), s.seed], b.aux()
    def ibin(s, e, st, op, a, b, n):
        if op != 'mul' or isc(a.t) or isc(b.t) or not zi(a.t).eq(zi(b.t)): return None
        t = zi(e.S(st, a)); q = s.sq(t); st.assume(z3.Implies(z3.And(t >= -8192, t <= 8192), z3.And(q >= 0, q <= 1 << 26)))
        e.oblige(st, And(t >= -8192, t <= 8192), 'signed-overflow', 'square of a difference'); return IV(n, q, 0, 1 << 26)
    def fbin(s, e, st, op, x, y):
        if op != 'fmul' or isc(x) or isc(y): return None
        x, y = zr(x), zr(y); r2 = 2 * z3.ToReal(zi(s.be.r.t))
        for a, c in ((x, y), (y, x)):
            if e.decide(st, c == r2) is True and e.decide(st, And(a >= -z3.RealVal(1) / 2, a <= z3.RealVal(1) / 2)) is True:
                p = z3.Real(uid('scaled')); st.assume(And(-r2 / 2 <= p, p <= r2 / 2)); return p      # p = a * 2r; only its range matters
        return None
    def intercept(s, e, st, name, args):
        if name == 'nx_uniform_sampler_new_with_seed':
            e.oblige(st, eq(e.U(st, args[0]), e.U(st, s.seed)), 'post', 'the given seed is used'); return [Out('ret', st, PV(s.smp, 0))]
        if name == 'nx_uniform_sampler_sample_s':
            e.oblige(st, args[0].obj is s.smp, 'call', 'samples come from the seeded sampler')
            u = z3.Real(uid('u')); st.assume(And(u >= 0, u < 1)); e.assumptions.add('nx_uniform_sampler_sample_s returns a value in [0, 1) (property P19)')
            return [Out('ret', st, FV(u, False))]
        if name == 'nx_uniform_sampler_free': st.ghost['freed'] = args[0].obj is s.smp; return [Out('ret', st, None)]
        if name == 'nx_brief_extractor_update_limits': st.ghost['limits'] = args[0].obj is s.be; return [Out('ret', st, None)]
    def pair(s, t, j):
        e = s.e; v = [zi(e.S(t, e.read(t, s.be.offs, None, add(mul(16, j), 4 * c), 'i32'))) for c in range(4)]; r = zi(s.be.r.t)
        return z3.And(*[z3.And(x >= -r, x <= r) for x in v], s.sq(v[2] - v[0]) + s.sq(v[3] - v[1]) >= 9)
    def loop_cands(s, e, L):
        if L.outer: return []
        def f(v, co):
            j, = co; last = unz(z3.simplify(zi(sub(v.k, 1)))) if not isc(v.k) else v.k - 1; d = And(le(0, j), lt(j, mul(8, s.be.no.t)))
            return And(guarded(e, v.st, And(d, eq(j, last)), lambda t: s.pair(t, last)), guarded(e, v.st, And(d, lt(j, last)), lambda t: s.pair(t, j)))
        return [QCand('the first k pairs are good', lambda v: s.be.offs, 1, lambda j: mul(16, j), f)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, bool(st.ghost.get('limits')), 'post', 'the limits are updated after the offsets'); e.oblige(st, bool(st.ghost.get('freed')), 'post', 'the sampler is freed')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, j < mul(8, s.be.no.t))); st.coords.append((j,))
        e.oblige(st, s.pair(st, j), 'post', 'every pair is within the radius and three pixels apart')


reg(Randomize)


class BriefIO(Contract):
    """base: an extractor and a stream: radius, number of octets, the offsets, the level offset"""
    unroll = False; fatal = False
    def at(s, e, st, off): return e.S(st, e.read(st, s.f.data, None, add(s.f.pos0, off), 'i32'))
    def same(s, e, st, no):
        l = lay(); g = lambda f: e.S(st, e.read(st, s.be, None, l[f][0], 'i32'))
        e.oblige(st, eq(g('radius'), s.at(e, st, 0)), 'post', 'radius'); e.oblige(st, eq(g('n_octets'), s.at(e, st, 4)), 'post', 'number of octets')
        e.oblige(st, eq(g('pyr_level_offset'), s.at(e, st, add(8, mul(128, no)))), 'post', 'level offset')
        p = e.read(st, s.be, None, l['offsets'][0], 'ptr'); j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, mul(32, no))))
        e.valid(st, p, mul(128, no), 'the offsets')
        e.oblige(st, eq(e.S(st, e.read(st, p.obj, None, add(p.off, mul(4, j)), 'i32')), s.at(e, st, add(8, mul(4, j)))), 'post', 'every offset')


class BWrite(BriefIO):
    """radius, number of octets, offsets and level offset; failure exactly when the stream fails"""
    name = 'nx_brief_extractor_write'
    def setup(s, e, case):
        b = B(e); s.be = mk_brief(b, ro=True, limits=False); s.f = mk_file(b, 'stream')
        return b.st, [PV(s.be, 0), PV(s.f, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st; bad = bool(st.ghost.get('io_failed'))
        if o.kind != 'ret': e.oblige(st, s.fatal and bad, 'post', 'ends the program only when the stream fails'); return
        if s.fatal: e.oblige(st, not bad, 'post', 'returns only when everything is written')
        else: e.oblige(st, eq(eq(e.S(st, o.ret), 0), not bad), 'post', 'success exactly when the stream accepts everything')
        if bad: return
        e.oblige(st, eq(pos(e, st, s.f), add(s.f.pos0, add(12, mul(128, s.be.no.t)))), 'post', 'nothing else is written'); s.same(e, st, s.be.no.t)


class BRead(BriefIO):
    """the stored extractor replaces the old one, its limits are recomputed; failure exactly when the stream is too short"""
    name = 'nx_brief_extractor_read'; cases = ('empty', 'used')
    def setup(s, e, case):
        b = B(e); l = lay(); s.f = mk_file(b, 'stream', readable=True); s.f.data.ro = True
        if case == 'used': s.be = mk_brief(b, limits=False)
        else:
            s.be = Obj('extractor', l[''][1], kind='hparam'); b.reg(s.be)
            s.be.cells.update({l['radius'][0]: ('i32', IV(32, 0)), l['n_octets'][0]: ('i32', IV(32, 0)), l['offsets'][0]: ('ptr', NULL), l['pyr_level_offset'][0]: ('i32', IV(32, 2))})
            for q in range(4): s.be.cells[l['offset_limits'][0] + 4 * q] = ('i32', IV(32, 0))
        s.no = s.at(e, b.st, 4); b.st.assume(And(le(4, s.at(e, b.st, 0)), le(s.at(e, b.st, 0), 1 << 12), le(1, s.no), le(s.no, 1 << 20)))
        return b.st, [PV(s.be, 0), PV(s.f, 0)], b.aux()
    def intercept(s, e, st, name, args):
        l = lay()
        if name == 'nx_brief_extractor_randomize':
            n = e.S(st, e.read(st, s.be, None, l['n_octets'][0], 'i32')); p = e.read(st, s.be, None, l['offsets'][0], 'ptr')
            e.oblige(st, And(args[0].obj is s.be, le(4, e.S(st, e.read(st, s.be, None, l['radius'][0], 'i32')))), 'pre', 'radius of at least 4')
            e.valid(st, p, mul(128, n), 'the offsets of the random tests', wr=True)
            src = Obj('random', mul(128, n), ptrs=None)
            if p.obj is not None: st.mem[p.obj] = type_layer(st.mem.get(p.obj), p.off, mul(128, n), src)
            for q in range(4): e.write(st, s.be, None, l['offset_limits'][0] + 4 * q, 'i32', e.fresh(st, 'i32', 'limit'))
            return [Out('ret', st, None)]
        if name == 'nx_brief_extractor_update_limits': st.ghost['limits'] = pos(e, st, s.f); return [Out('ret', st, None)]
    def post(s, e, st0, o, args, aux):
        st = o.st; enough = le(add(s.f.pos0, add(12, mul(128, s.no))), s.f.len)
        if o.kind != 'ret': e.oblige(st, And(s.fatal, Not(enough)), 'post', 'ends the program only when the stream is too short'); return
        ok = True if s.fatal else eq(e.S(st, o.ret), 0)
        e.oblige(st, eq(ok, enough) if not s.fatal else enough, 'post', 'success exactly when the stream holds an extractor')
        st = st.copy(); st.assume(And(ok, enough))
        if not e.pr.feasible(st): return
        e.oblige(st, eq(pos(e, st, s.f), add(s.f.pos0, add(12, mul(128, s.no)))), 'post', 'nothing else is read'); s.same(e, st, s.no)
        lp = st.ghost.get('limits'); e.oblige(st, False if lp is None else le(add(s.f.pos0, add(8, mul(128, s.no))), lp), 'post', 'the limits are recomputed from the offsets read')


def type_layer(prev, lo, n, src):
    hi = add(lo, n)
    return Layer('hv', prev, region=lambda idx, off: And(le(lo, off), lt(off, hi)), src=src, qf=[])


reg(BWrite); reg(BRead)
reg(type('bxw', (BWrite,), dict(name='nx_brief_extractor_xwrite', fatal=True, __doc__='ends the program exactly when the stream fails')))
reg(type('bxr', (BRead,), dict(name='nx_brief_extractor_xread', fatal=True, __doc__='ends the program exactly when the stream is too short')))


# ---------------------------------------------------------------------------------------- keypoint lists
KALL = KF[:-1]


class KeyList(Contract):
    """base: a list of keypoints of which the first r are filled by the callee under test"""
    unroll = False
    def kobj(s, b, name, n): o = Obj(name, mul(s.sz, n), kind='param', layout=None); b.reg(o); return o
    def g(s, st, o, i, f):
        ty = dict(KF)[f]; v = s.e.read(st, o, None, add(mul(s.sz, i), s.fo[f]), ty); return v
    def init(s, e): s.e = e; l = llir_offsets(*KP, [f for f, _ in KF]); s.fo = {f: l[f][0] for f, _ in KF}; s.sz = l[''][1]
    def fcands(s, e, L, o, n, want):
        """field f of the first k entries is want[f](st, i), others as before"""
        out = []
        for f in want:
            def q(v, co, f=f):
                i, = co
                def h(t):
                    cur = s.g(t, o, i, f); ini = s.g(st_with(t, L.st0), o, i, f)
                    return And(guarded(e, t, lt(i, v.k), lambda t2: same(e, t2, cur, want[f](t2, i))), Implies(Not(lt(i, v.k)), same(e, t, cur, ini)))
                return guarded(e, v.st, And(le(0, i), lt(i, n)), h)
            out.append(QCand('%s of the first k' % f, lambda v: o, 1, lambda i, f=f: add(mul(s.sz, i), s.fo[f]), q))
        return out
    def keep(s, e, L, o, n, fs): return s.fcands(e, L, o, n, {f: (lambda t, i, f=f: s.g(st_with(t, L.st0), o, i, f)) for f in fs})
    def havoc(s, e, st, o, n, name):
        """the callee fills the first n entries"""
        src = Obj(name, mul(s.sz, n), layout=None); st.mem[o] = type_layer(st.mem.get(o), 0, mul(s.sz, n), src); return src


class FDetect(KeyList):
    """the corners found become keypoints of level 0 and scale 1 at their pixel, numbered in order; at most as many as asked for"""
    name = 'nx_fast_detect_keypoints'; cases = ('gray',)
    def setup(s, e, case):
        b = B(e); s.init(e); s.n = b.int('n_keys_max', 32, 0, 1 << 24); s.k = s.kobj(b, 'keys', s.n.t); s.th = b.int('threshold', 32, 0, 255)
        s.img = im.mk_img(b, 'img', 'wrapped', im.GRAY, im.UC, ro=True); s.raw = s.cnt = None
        return b.st, [s.n, PV(s.k, 0), PV(s.img, 0), s.th], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'fast9_detect': return None
        k, d, w, h, rs, th, pn = args; g = s.img
        e.oblige(st, And(k.obj is s.k, eq(k.off, 0), d.obj is g.m.data, eq(d.off, 0), eq(e.S(st, w), g.w.t), eq(e.S(st, h), g.h.t), eq(e.S(st, rs), g.rs.t), eq(e.S(st, th), s.th.t)), 'pre', 'corners of the image at the threshold')
        m = e.S(st, e.read(st, pn.obj, pn.idx, pn.off, 'i32')); e.oblige(st, le(m, s.n.t), 'pre', 'not more than fit')
        r = e.fresh(st, 'i32', 'corners', 0, (1 << 31) - 1); st.assume(le(r.t, m)); e.write(st, pn.obj, pn.idx, pn.off, 'i32', r)
        s.raw = s.havoc(e, st, s.k, m, 'corners'); s.cnt = r.t; s.st1 = st.copy(); st.ghost['detected'] = True
        e.assumptions.add('fast9_detect (machine-generated decision tree) stores at most *n corners and their number; which corners is checked by the harness against the segment test')
        return [Out('ret', st, None)]
    def want(s):
        z = lambda c: (lambda t, i: FV(Fraction(c), False)); px = lambda f: (lambda t, i: FV(z3.ToReal(zi(s.e.S(t, s.g(st_with(t, s.st1), s.k, i, f)))), False))
        return dict(x=lambda t, i: s.g(st_with(t, s.st1), s.k, i, 'x'), y=lambda t, i: s.g(st_with(t, s.st1), s.k, i, 'y'), xs=px('x'), ys=px('y'), level=lambda t, i: IV(32, 0), scale=z(1), sigma=z(0), score=z(0), ori=z(0), id=lambda t, i: IV(64, i, 0, 1 << 31))
    def loop_cands(s, e, L): return s.fcands(e, L, s.k, s.n.t, s.want()) if s.raw is not None else []
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        r = e.S(st, o.ret)
        for zero, s1 in branch(e, st, eq(s.n.t, 0)):
            if zero: e.oblige(s1, eq(r, 0), 'post', 'none asked for: none found'); continue
            if s.raw is None: e.oblige(s1, False, 'post', 'corners are detected'); continue
            e.oblige(s1, eq(r, s.cnt), 'post', 'all corners are returned')
            i = z3.Int(uid('i')); s1.assume(And(i >= 0, lt(i, r))); s1.coords.append((i,))
            if not e.pr.feasible(s1): continue
            for f, w in s.want().items(): e.oblige(s1, same(e, s1, s.g(s1, s.k, i, f), w(s1, i)), 'post', 'field %s of every keypoint' % f)


class FSuppress(KeyList):
    """the kept keypoints are numbered in order and otherwise as selected"""
    name = 'nx_fast_suppress_keypoints'
    def setup(s, e, case):
        b = B(e); s.init(e); s.n = b.int('n_keys_supp_max', 32, 0, 1 << 24); s.m = b.int('n_keys', 32, 0, 1 << 24); s.k = s.kobj(b, 'keys_supp', s.n.t); s.src = s.kobj(b, 'keys', s.m.t); s.src.ro = True; s.raw = None
        return b.st, [s.n, PV(s.k, 0), s.m, PV(s.src, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'fast_nonmax_suppression': return None
        pn, k, n, c = args
        e.oblige(st, And(k.obj is s.k, eq(k.off, 0), c.obj is s.src, eq(c.off, 0), eq(e.S(st, n), s.m.t)), 'pre', 'all keypoints compete')
        m = e.S(st, e.read(st, pn.obj, pn.idx, pn.off, 'i32')); e.oblige(st, le(m, s.n.t), 'pre', 'not more than fit')
        r = e.fresh(st, 'i32', 'kept', 0, (1 << 31) - 1); st.assume(le(r.t, m)); e.write(st, pn.obj, pn.idx, pn.off, 'i32', r)
        s.raw = s.havoc(e, st, s.k, m, 'kept'); s.cnt = r.t; s.st1 = st.copy()
        e.assumptions.add('fast_nonmax_suppression stores at most *n of the keypoints and their number; which ones is checked by the harness')
        return [Out('ret', st, None)]
    def want(s): return {**{f: (lambda t, i, f=f: s.g(st_with(t, s.st1), s.k, i, f)) for f, _ in KALL}, 'id': lambda t, i: IV(64, i, 0, 1 << 31)}
    def loop_cands(s, e, L): return s.fcands(e, L, s.k, s.n.t, {'id': s.want()['id']}) + s.keep(e, L, s.k, s.n.t, [f for f, _ in KALL]) if s.raw is not None else []
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.raw is None: e.oblige(st, False, 'post', 'suppression happens'); return
        r = e.S(st, o.ret); e.oblige(st, eq(r, s.cnt), 'post', 'all kept keypoints are returned')
        i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, r))); st.coords.append((i,))
        if not e.pr.feasible(st): return
        for f, w in s.want().items(): e.oblige(st, same(e, st, s.g(st, s.k, i, f), w(st, i)), 'post', 'field %s of every keypoint' % f)


reg(FDetect); reg(FSuppress)


class FPyr(KeyList):
    """keypoints of the levels asked for, coarsest first, until the list is full: numbered in order, each with the number, scale and sigma of its level and otherwise as selected there"""
    name = 'nx_fast_detect_keypoints_pyr'; det = False; single = False; fork_unroll = 0
    CALLS = ('nx_fast_detect_keypoints', 'nx_fast_score_keypoints', 'nx_fast_suppress_keypoints', 'nx_fast_detector_compute_keypoint_ori_ic', 'nx_keypoint_vector_resize')
    def setup(s, e, case):
        b = B(e); s.init(e); st = b.st; s.ori = case == 'ori'
        s.mx = b.int('n_keys_supp_max', 32, 1 if s.det else 0, 1 << 20); s.k = s.kobj(b, 'keys_supp', s.mx.t); s.p = mk_pyr(b); s.th = b.int('threshold', 32, 0, 255); s.np = b.int('n_pyr_key_levels', 32)
        s.lv = ite(Or(le(s.np.t, 0), lt(s.p.n.t, s.np.t)), s.p.n.t, s.np.t)
        s.F = {f: z3.Function(uid('kept.' + f), I, I, R if t[0] == 'f' else I) for f, t in KALL if f not in ('level', 'scale', 'sigma')}
        s.vis = Obj('visited', 24, kind='file'); s.vis.cells[16] = ('i64', IV(64, 0)); s.vis.cells[0] = ('i64', IV(64, 0)); s.vis.cells[8] = ('i64', IV(64, 0))
        if not s.det:
            s.wn = b.int('n_keys_max', 32, 0, 1 << 20).t; s.w = s.kobj(b, 'work', s.wn); a = [s.mx, PV(s.k, 0), IV(32, s.wn, 0, 1 << 20), PV(s.w, 0), PV(s.p, 0), s.th, s.np]
        else:
            s.mult = b.int('work_multiplier', 64, 1, 1 << 10); s.wn = mul(s.mx.t, s.mult.t); st.assume(le(s.wn, (1 << 31) - 1)); s.w = s.kobj(b, 'work', s.wn); s.ic = Obj('ic', 16, kind='param'); b.reg(s.ic)
            lv = llir_offsets('virg/nexus/nx_keypoint_vector.h', 'struct NXKeypointVector', ['size', 'data']); s.vec = Obj('keys_work', lv[''][1], kind='hparam'); b.reg(s.vec); s.lvec = lv
            s.vec.cells.update({lv['size'][0]: ('i64', b.int('old size', 64, 0, 1 << 40)), lv['data'][0]: ('ptr', PV(Obj('old work', 0, kind='param'), 0))})
            s.d = b.struct('detector', *FD, {'threshold': ('i32', s.th), 'keys_work': ('ptr', PV(s.vec, 0)), 'work_multiplier': ('i64', s.mult), 'compute_ori': ('i32', IV(32, 1 if s.ori else 0)), 'ic_data': ('ptr', PV(s.ic, 0) if s.ori else NULL)})
            a = [PV(s.d, 0), s.mx, PV(s.k, 0), PV(s.p, 0), s.np]
        return st, a, b.aux()
    def V(s, st, o=0): return s.e.read(st, s.vis, None, o, 'i64').t
    def intercept(s, e, st, name, args):
        if name not in s.CALLS: return None
        O = lambda g, w: e.oblige(st, g, 'pre', w)
        if name == 'nx_keypoint_vector_resize':
            O(And(args[0].obj is s.vec, eq(e.U(st, args[1]), s.wn)), 'room for all candidate keypoints')
            for f, v in (('size', IV(64, s.wn, 0, 1 << 31)), ('data', PV(s.w, 0))): e.write(st, s.vec, None, s.lvec[f][0], 'i64' if f == 'size' else 'ptr', v)
            return [Out('ret', st, None)]
        work = lambda p: And(p.obj is s.w, eq(p.off, 0))
        img = lambda p: And(p.obj is not None and p.obj.name == 'images' and p.idx is not None, eq(p.off, 0))
        if name == 'nx_fast_detect_keypoints':
            n, k, g, th = args; v = s.V(st); O(eq(s.V(st, 16), 0), 'orientations are computed level by level')
            O(And(eq(e.S(st, n), s.wn), work(k), img(g), eq(e.S(st, th), s.th.t)), 'corners of a level at the threshold')
            if g.obj is not None and g.idx is not None: O(eq(g.idx, sub(sub(s.lv, 1), v)), 'levels are visited from the coarsest to the finest, none left out')
            e.write(st, s.vis, None, 0, 'i64', IV(64, add(v, 1), 0, 1 << 40)); r = e.fresh(st, 'i32', 'corners', 0, (1 << 31) - 1); st.assume(le(r.t, s.wn)); st.ghost['n'] = r.t; st.ghost['lev'] = g.idx; st.ghost.pop('scored', None)
            return [Out('ret', st, r)]
        if name == 'nx_fast_score_keypoints':
            n, k, g, th = args; O(And('n' in st.ghost, eq(e.S(st, n), st.ghost.get('n', 0)), work(k), img(g), eq(g.idx if g.idx is not None else -1, st.ghost.get('lev', 0)), eq(e.S(st, th), s.th.t)), 'the corners are scored in their level'); st.ghost['scored'] = True
            return [Out('ret', st, None)]
        if name == 'nx_fast_suppress_keypoints':
            m, k, n, c = args; mt = e.S(st, m); at = s.V(st, 8)
            O(And('scored' in st.ghost, eq(e.S(st, n), st.ghost.get('n', 0)), work(c), k.obj is s.k), 'scored corners compete')
            O(And(eq(k.off, mul(s.sz, at)), le(add(at, mt), s.mx.t)), 'the kept keypoints follow those of coarser levels')
            r = e.fresh(st, 'i32', 'kept', 0, (1 << 31) - 1); st.assume(le(r.t, mt)); lev = st.ghost.get('lev', 0)
            src = Obj('kept', mul(s.sz, s.mx.t), layout=None); st.mem[s.k] = type_layer(st.mem.get(s.k), k.off, mul(s.sz, mt), src)
            def rd(t_, idx, off, ty, t):
                out = []
                for f, F in s.F.items():
                    if dict(KF)[f] == ty:
                        q = div_exact(unz(z3.simplify(zi(sub(off, s.fo[f])))), s.sz) if not isc(off) else None
                        if q is not None: out.append(t == F(zi(lev), zi(q)))
                return out
            src.onread = [rd]; e.write(st, s.vis, None, 16, 'i64', IV(64, 1 if s.ori else 0)); e.write(st, s.vis, None, 8, 'i64', IV(64, add(at, r.t), 0, 1 << 40)); st.ghost['kept'] = (at, r.t, lev)
            return [Out('ret', st, r)]
        n, k, g, ic = args; at, r, lev = st.ghost.get('kept', (0, -1, 0))
        O(And(s.ori, eq(e.S(st, n), r), k.obj is s.k, eq(k.off, mul(s.sz, at)), img(g), eq(g.idx if g.idx is not None else -1, lev), ic.obj is getattr(s, 'ic', None)), 'the orientations of the kept keypoints are computed in their level')
        e.write(st, s.vis, None, 16, 'i64', IV(64, 0))
        nk = Obj('oriented', mul(s.sz, s.mx.t), layout=None); lo, fo = k.off, s.fo['ori']
        st.mem[s.k] = Layer('hv', st.mem.get(s.k), region=lambda idx, off: And(le(lo, off), lt(off, add(lo, mul(s.sz, r))), eq(imod(sub(off, fo), s.sz), 0)), src=nk, qf=[])
        return [Out('ret', st, None)]
    def row(s, t, i, lo):
        """entry i is complete, and from level lo or coarser"""
        e = s.e; lev = zi(e.S(t, s.g(t, s.k, i, 'level'))); p = s.p
        c = [eq(e.U(t, s.g(t, s.k, i, 'id')), i), le(lo, lev), lt(lev, s.lv), eq(zr(s.g(t, s.k, i, 'scale').t), p.SC(lev)), eq(zr(s.g(t, s.k, i, 'sigma').t), p.SG(lev))]
        for f, F in s.F.items():
            if f == 'ori' and s.ori: continue
            v = s.g(t, s.k, i, f); c.append(eq(e.S(t, v) if isinstance(v, IV) else zr(v.t), F(lev, zi(i))))
        return And(*c)
    def loop_cands(s, e, L):
        out = []; at = lambda v: s.V(v.st, 8)
        if not L.outer:
            out += [Cand('no orientation is missing', lambda v: eq(s.V(v.st, 16), 0), strong=True), Cand('k levels visited', lambda v: eq(s.V(v.st), v.k), strong=True), Cand('the list fits', lambda v: And(le(0, at(v)), le(at(v), s.mx.t)), strong=True), Cand('the list is not full', lambda v: Or(eq(v.k, 0), lt(at(v), s.mx.t)), strong=True)]
            for a in ints(L): out += [Cand('%s is the number of keypoints' % nm(a), lambda v, a=a: eq(v.get(a), at(v)), strong=True), Cand('%s is the room left' % nm(a), lambda v, a=a: eq(v.get(a), sub(s.mx.t, at(v))), strong=True)]
            for ph in L.phis:
                v0 = L.entry.get(ph.res)
                if isinstance(v0, PV) and v0.obj is s.k: out.append(Cand('%s follows the list' % ph.res, lambda v, a=('phi', ph.res): eq(v.get(a), mul(s.sz, at(v))), strong=True))
            def q(v, co):
                i, = co; return guarded(e, v.st, And(le(0, i), lt(i, at(v))), lambda t: s.row(t, i, sub(s.lv, v.k)))
            for f in ('id',): out.append(QCand('the list so far', lambda v: s.k, 1, lambda i, f=f: add(mul(s.sz, i), s.fo[f]), q))
        else:
            kept = L.st0.ghost.get('kept')
            if kept is None: return out
            a0, r, lev = kept; p = s.p
            want = {'level': lambda t, i: IV(32, lev, 0, 1 << 20), 'scale': lambda t, i: FV(p.SC(zi(lev)), False), 'sigma': lambda t, i: FV(p.SG(zi(lev)), False), 'id': lambda t, i: IV(64, i, 0, 1 << 40)}
            for f, _ in KF:
                def q(v, co, f=f):
                    i, = co
                    def h(t):
                        cur = s.g(t, s.k, i, f); ini = s.g(st_with(t, L.st0), s.k, i, f); d = And(le(a0, i), lt(i, add(a0, v.k)))
                        if f not in want: return same(e, t, cur, ini)
                        return And(guarded(e, t, d, lambda t2: same(e, t2, cur, want[f](t2, i))), Implies(Not(d), same(e, t, cur, ini)))
                    return guarded(e, v.st, And(le(0, i), lt(i, s.mx.t)), h)
                out.append(QCand('%s of the new keypoints' % f, lambda v: s.k, 1, lambda i, f=f: add(mul(s.sz, i), s.fo[f]), q))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        r = e.S(st, o.ret); none = False if s.det else Or(eq(s.mx.t, 0), eq(s.wn, 0))
        for zero, s1 in branch(e, st, none):
            if zero: e.oblige(s1, eq(r, 0), 'post', 'no room: none found'); continue
            e.oblige(s1, eq(s.V(s1, 16), 0), 'post', 'orientations are computed when asked for')
            e.oblige(s1, eq(r, s.V(s1, 8)), 'post', 'all kept keypoints are returned')
            e.oblige(s1, Or(eq(s.V(s1), s.lv), le(s.mx.t, r)), 'post', 'all levels are visited unless the list is full')
            i = z3.Int(uid('i')); s1.assume(And(i >= 0, lt(i, r))); s1.coords.append((i,))
            if not e.pr.feasible(s1): continue
            e.oblige(s1, s.row(s1, i, 0), 'post', 'every keypoint: number, level, scale, sigma, and position and score as selected')


class FSingle(FPyr):
    """the corners of the image at the detector's threshold are scored, compete, and get orientations when asked for; nothing else is done to the kept ones"""
    name = 'nx_fast_detector_detect'; det = True; cases = ('', 'ori')
    def setup(s, e, case):
        st, a, x = FPyr.setup(s, e, case); b = B(e); b.st = st; s.lv = 1
        return st, a[:3] + [PV(next(o for o in x.roots if o.name == 'images'), 0, 0)], x
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        r = e.S(st, o.ret); e.oblige(st, eq(s.V(st, 16), 0), 'post', 'orientations are computed when asked for'); e.oblige(st, eq(s.V(st), 1), 'post', 'the image is searched'); e.oblige(st, eq(r, s.V(st, 8)), 'post', 'all kept keypoints are returned')
        i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, r))); st.coords.append((i,))
        if not e.pr.feasible(st): return
        for f, F in s.F.items():
            if f == 'ori' and s.ori: continue
            v = s.g(st, s.k, i, f); e.oblige(st, eq(e.S(st, v) if isinstance(v, IV) else zr(v.t), F(0, zi(i))), 'post', 'field %s as selected' % f)


reg(FPyr); reg(FSingle)
reg(type('fdp', (FPyr,), dict(name='nx_fast_detector_detect_pyr', det=True, cases=('', 'ori'), __doc__=FPyr.__doc__)))
