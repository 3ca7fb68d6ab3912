from .common import *
from ..libc import PI, sqrt_, ev

SPECS = []
NX, NY, NPIX = A('fs.nx'), A('fs.ny'), A('fs.npix')
LX, LY = A('fs.lx', s='R'), A('fs.ly', s='R')
HX = add(idiv(NX, 2), 1)
NM = mul(NY, HX)


def fs_pre(e):
    return [ge(NX, 1), ge(NY, 1), eq(NPIX, mul(NX, NY)), gt(LX, 0), gt(LY, 0), eq(A('fs.pixsize', s='R'), rdiv(mul(LX, LY), mul(NX, NY)))]


def prod_post(q):
    p = sk()
    d = rng(p, 0, NPIX)
    yield ('product', eq(q.at(d).rd('mp_out', p), mul(A('mp1', p, s='R'), A('mp2', p, s='R'))), d)


M3 = {'fs': 1, 'mp1': NPIX, 'mp2': NPIX, 'mp_out': NPIX}
SPECS.append(Spec('fs_map_product', lens=M3, pre=fs_pre, post=prod_post))
SPECS.append(Spec('fs_mapcpy', lens={'fs': 1, 'destmap': NPIX, 'srcmap': NPIX}, pre=fs_pre,
                  post=lambda q: [(lambda p: ('copy', eq(q.at(rng(p, 0, NPIX)).rd('destmap', p), A('srcmap', p, s='R')), rng(p, 0, NPIX)))(sk())]))


def dot_post(q):
    p = fresh('p')
    yield ('sum of the products times the pixel area', eq(q.ret, mul(A('fs.pixsize', s='R'), sum_(p, 0, NPIX, mul(A('mp1', p, s='R'), A('mp2', p, s='R'))))))


SPECS.append(Spec('fs_map_dot', lens=M3, pre=fs_pre, post=dot_post))


def zero_post(q):
    p = sk()
    d = rng(p, 0, NM)
    for f in ('re', 'im'):
        yield ('zero', eq(q.at(d).rd('alm', p, fld=f), 0), d)


SPECS.append(Spec('fs_zero_alm', lens={'fs': 1, 'alm': NM}, pre=fs_pre, post=zero_post))


# ---------------------------------------------------------------- Fourier plane conventions
def kcomp(i, n, l):
    """wave number of FFT index i along an axis of n pixels and length l (non-negative up to and including the Nyquist one)"""
    dk = rdiv(mul(2, PI), l)
    return ite(le(mul(2, i), n), mul(i, dk), neg(mul(sub(n, i), dk)))


def kmod(kx, ky): return sqrt_(add(mul(kx, kx), mul(ky, ky)))


def half(ix, iy, nx=NX, ny=NY):
    """index of mode (ix, iy) of the full plane in the stored half plane (conjugate mode for the other half)"""
    hx = add(idiv(nx, 2), 1)
    return ite(le(mul(2, ix), nx), add(ix, mul(hx, iy)), add(sub(nx, ix), mul(hx, imod(sub(ny, iy), ny))))


from .bins_flat import flat_lens, sorted_bands, bandof, bandof_def, c_search


def alm2cl_post(n1, n2):
    def post(q):
        b = sk()
        d = rng(b, 0, A('bin.n_bands'))
        q1 = q.at(d)
        ix, iy = fresh('ix'), fresh('iy')
        kx, ky = kcomp(ix, NX, LX), kcomp(iy, NY, LY)
        inb = and_(eq(bandof(kmod(kx, ky)), b), not_(and_(ge(ky, v('lmn_y', 'R')), le(ky, v('lmx_y', 'R')))), not_(and_(ge(kx, v('lmn_x', 'R')), le(kx, v('lmx_x', 'R')))))
        N = sum_(iy, 0, NY, sum_(ix, 0, NX, iv(inb)))
        h = half(ix, iy)
        for c1 in range(n1):
            for c2 in range(n2):
                a = lambda w, f, c: A('alms_%d[].%s' % (w, f), c, h, s='R')
                S = sum_(iy, 0, NY, sum_(ix, 0, NX, mul(iv(inb), add(mul(a(1, 're', c1), a(2, 're', c2)), mul(a(1, 'im', c1), a(2, 'im', c2))))))
                want = ite(le(N, 0), 0, rdiv(mul(S, 4, PI, PI), mul(LX, LY, N)))
                yield ('band average of the product of components %d, %d' % (c1, c2), eq(q1.rd('cls[]', c2 + n2 * c1, b), want), d)
    return post


for n1 in (1, 2):
    for n2 in (1, 2):
        SPECS.append(Spec('fs_alm2cl', name='fs_alm2cl[%d%d]' % (2 * n1 - 2, 2 * n2 - 2), args={k: 0 for k, n in (('spin_1', n1), ('spin_2', n2)) if n == 1},
                          lens={'fs': 1, **flat_lens(), 'alms_1': n1, 'alms_2': n2, 'alms_1[]': lambda c: NM, 'alms_2[]': lambda c: NM, 'cls': n1 * n2, 'cls[]': lambda c: A('bin.n_bands')},
                          pre=lambda e, n1=n1, n2=n2: fs_pre(e) + [ge(A('bin.n_bands'), 1)] + [ge(v(k), 1) for k, n in (('spin_1', n1), ('spin_2', n2)) if n == 2],
                          facts=lambda e: sorted_bands() + bandof_def(), contracts={'nmt_bins_flat_search_fast': c_search},
                          opts={'inv': [lambda x: lt(x, A('bin.n_bands'))]}, post=alm2cl_post(n1, n2)))

# ---------------------------------------------------------------- spin rotation in the Fourier plane
def cmul(a, b): return (sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0])))


def ipow(s, sign=1):
    """(sign i)^s"""
    m = imod(s, I(4))
    return ite(eq(m, 0), 1, ite(eq(m, 2), -1, 0)), mul(sign, ite(eq(m, 1), 1, ite(eq(m, 3), -1, 0)))


def phase(ix, iy, s):
    """cos, sin of s times the angle of the wave vector (1, 0 for the null one)"""
    kx, ky = mul(ix, rdiv(mul(2, PI), LX)), kcomp(iy, NY, LY)
    k2 = add(mul(kx, kx), mul(ky, ky))
    c, s_ = ite(le(k2, 0), 1, rdiv(kx, sqrt_(k2))), ite(le(k2, 0), 0, rdiv(ky, sqrt_(k2)))
    return cis_pow(c, s_, s)


def rotated(ix, iy, s, old, inverse):
    """(E,B) of (Q,U) or back: old(component) -> (re, im)"""
    c, sn = phase(ix, iy, s)
    q, u = old(0), old(1)
    sg = ipow(s, -1 if inverse else 1)
    o = ite(eq(s, 0), 1, -1)
    sg = (mul(o, sg[0]), mul(o, sg[1]))
    r = lambda a, x, b, y: tuple(add(mul(a, x[i]), mul(b, y[i])) for i in (0, 1))
    if inverse:
        return cmul(sg, r(c, q, sn, u)), cmul(sg, r(neg(sn), q, c, u))
    return cmul(sg, r(c, q, neg(sn), u)), cmul(sg, r(sn, q, c, u))


def rot_post(inverse):
    def post(q):
        ix, iy = sk(), sk()
        d = and_(rng(ix, 0, HX), rng(iy, 0, NY))
        q1 = q.at(d)
        i = add(ix, mul(HX, iy))
        want = rotated(ix, iy, v('spin'), lambda c: (A('alm[].re', c, i, s='R'), A('alm[].im', c, i, s='R')), inverse)
        for c in (0, 1):
            for f, n in (('re', 0), ('im', 1)):
                yield ('component %d rotated (%s)' % (c, f), eq(q1.rd('alm[]', c, i, fld=f), want[c][n]), d)
    return post


for fn in ('qu2eb', 'eb2qu'):
    SPECS.append(Spec(fn, lens={'fs': 1, 'alm': 2, 'alm[]': lambda c: NM}, pre=lambda e: fs_pre(e) + [ge(v('spin'), 0)], post=rot_post(fn == 'eb2qu')))


# ---------------------------------------------------------------- transforms
def FTsum(f, k):
    """(re, im) of the discrete transform of the map f(p), normalised to the flat-sky convention"""
    p = fresh('p')
    n = rdiv(mul(LX, LY), mul(2, PI, NX, NY))
    K = lambda nm: app(nm, (NY, NX, k, p), 'R')
    return mul(n, sum_(p, 0, NPIX, mul(f(p), K('$ftc')))), neg(mul(n, sum_(p, 0, NPIX, mul(f(p), K('$fts')))))


def IFTsum(g, p):
    k = fresh('k')
    K = lambda nm: app(nm, (NY, NX, k, p), 'R')
    re, im = g(k)
    return mul(rdiv(mul(2, PI), mul(LX, LY)), sum_(k, 0, NM, mul(app('$ftw', (NX, k), 'R'), sub(mul(re, K('$ftc')), mul(im, K('$fts'))))))


def c_rot(inverse):
    def f(eng, st, args, e):
        from ..engine import Loop, St
        fs, spin, alm = ev(eng, st, args)
        eng.oblige(st, ge(spin, 0), 'spin is not negative', 'mem', e.line)
        rows, sc = [], st.copy()
        for c in (0, 1):
            r = eng.simp_ptr(st, eng.load(st, eng.padd(st, alm, I(c)), 'fcomplex *', e.line))
            eng.check_range(st, r, NM, e.line, 'alm')
            rows.append(r)
        if rows[0].same(rows[1]):
            raise Unsupported('aliased components')
        old = [[eng.content(st, r.obj, p, 'double') for p in ('re', 'im')] for r in rows]
        ix, iy = fresh('ix'), fresh('iy')
        s = sc.copy()
        s.assume(and_(rng(ix, 0, HX), rng(iy, 0, NY)))
        i = add(ix, mul(HX, iy))
        val = rotated(ix, iy, spin, lambda c: tuple(eng.eval_content(s, x, rows[c].idx + (add(rows[c].off, i),)) for x in old[c]), inverse)
        for c, r in enumerate(rows):
            eng.touched_objs.add(r.obj.name)
            eng.replicated(r, e.line)
            for j, p in enumerate(('re', 'im')):
                cc = eng.content(st, r.obj, p, 'double')
                st.mem[(r.obj.name, p)] = cc.add(Loop(iy, ZERO, NY, [Loop(ix, ZERO, HX, [St(TRUE, r.idx + (add(r.off, i),), val[c][j], eng.prot > 0)])]))
        return UNDEF
    return f


def m2a_post(n):
    def post(q):
        ix, iy = sk(), sk()
        d = and_(rng(ix, 0, HX), rng(iy, 0, NY))
        i = add(ix, mul(HX, iy))
        q1 = q.at(d)
        ft = lambda c: FTsum(lambda p: A('map[]', c, p, s='R'), i)
        want = [ft(0)] if n == 1 else rotated(ix, iy, v('spin'), ft, False)
        for c in range(n):
            for f, j in (('re', 0), ('im', 1)):
                yield ('component %d (%s) is the transform of the maps' % (c, f), eq(q1.rd('alm[]', c, i, fld=f), want[c][j]), d)
        c, p = sk(), sk()
        d = and_(rng(c, 0, n), rng(p, 0, NPIX))
        yield ('input maps untouched', eq(q.at(d).rd('map[]', c, p), A('map[]', c, p, s='R')), d)
    return post


def a2m_post(n):
    def post(q):
        p = sk()
        d = rng(p, 0, NPIX)
        q1 = q.at(d)
        old = lambda c, i: (A('alm[].re', c, i, s='R'), A('alm[].im', c, i, s='R'))
        for c in range(n):
            if n == 1:
                g = lambda i: old(0, i)
            else:
                g = lambda i, c=c: rotated(imod(i, HX), idiv(i, HX), v('spin'), lambda cc: old(cc, add(imod(i, HX), mul(HX, idiv(i, HX)))), True)[c]
            yield ('map %d is the inverse transform of the modes' % c, eq(q1.rd('map[]', c, p), IFTsum(g, p)), d)
    return post


ROT = {'qu2eb': c_rot(False), 'eb2qu': c_rot(True)}
for fn, pf in (('fs_map2alm', m2a_post), ('fs_alm2map', a2m_post)):
    for n in (1, 2):
        SPECS.append(Spec(fn, name='%s[%s]' % (fn, 's' if n == 2 else '0'), args={'ntrans': 1, **({'spin': 0} if n == 1 else {})},
                          lens={'fs': 1, 'map': n, 'alm': n, 'map[]': lambda c: NPIX, 'alm[]': lambda c: NM},
                          pre=lambda e, n=n: fs_pre(e) + ([ge(v('spin'), 1)] if n == 2 else []), contracts=ROT, post=pf(n), timeout=20000 if n == 2 else 6000))

# ---------------------------------------------------------------- filters
from .kfun import KC


def kmod_at(ix, iy):
    kx, ky = mul(ix, rdiv(mul(2, PI), LX)), kcomp(iy, NY, LY)
    return sqrt_(add(mul(kx, kx), mul(ky, ky)))


def alter_post(out, add_, win):
    def post(q):
        ix, iy = sk(), sk()
        d = and_(rng(ix, 0, HX), rng(iy, 0, NY))
        q1 = q.at(d)
        i = add(ix, mul(HX, iy))
        w = app(win, (kmod_at(ix, iy),), 'R')
        for f in ('re', 'im'):
            want = mul(A('alm_in.' + f, i, s='R'), w)
            if add_:
                want = add(A('alm_out.' + f, i, s='R'), want)
            yield ('mode times the filter (%s)' % f, eq(q1.rd(out, i, fld=f), want), d)
    return post


def c_gauss(eng, st, args, e):
    """contract of fs_generate_beam_window: a function object named after its width"""
    (w,) = ev(eng, st, args)
    eng.opts['$gw'] = w
    return Ptr(eng.param_obj('gaussbeam', 0, 'nmt_k_function'))


def c_kfree(eng, st, args, e): return UNDEF


FL = {'fs': 1, 'alm_in': NM, 'alm_out': NM, 'window': 1, 'gaussbeam': 1}
for ad in (0, 1):
    SPECS.append(Spec('fs_alter_alm', name='fs_alter_alm[%s]' % ('add' if ad else 'set'), args={'add_to_out': ad}, lens=FL, pre=fs_pre, contracts=KC,
                      post=alter_post('alm_out', ad, 'kfun:window')))


def gauss_post(q):
    yield from alter_post('alm_in', 0, 'kfun:gaussbeam')(q)
    yield ('the requested width is used', eq(q.eng.opts.get('$gw', num(-1)), v('fwhm_amin', 'R')))


SPECS.append(Spec('fs_alter_alm', name='fs_alter_alm[gaussian, in place]', lens=FL, pre=fs_pre, contracts=dict(KC, fs_generate_beam_window=c_gauss, nmt_k_function_free=c_kfree),
                  args={'add_to_out': 0, 'window': lambda e, s: NULL, 'alm_out': lambda e, s: Ptr(e.param_obj('alm_in', 0, 'fcomplex'))}, post=gauss_post))

GSIG = Fraction(12352884853326381, 10 ** 20)


def c_kalloc(eng, st, args, e):
    """the table handed over describes exp(-l^2 sigma^2 / 2) at l = i / (128 sigma)"""
    n, x, y, y0, yf, ic = [eng.ex(st, a) for a in args]
    i = fresh('i')
    s = st.copy()
    s.assume(rng(i, 0, 640))
    sg = mul(R(GSIG), v('fwhm_amin', 'R'))
    l = rdiv(i, mul(128, sg))
    ob = lambda g, nm: eng.oblige(s, g, nm, 'post', e.line)
    ob(eq(n, 640), 'number of points')
    ob(eq(ic, 0), 'not a constant')
    ob(and_(eq(y0, 1), eq(yf, 0)), 'limits outside of the table')
    ob(eq(eng.eval_content(s, eng.content(st, x.obj, '', 'double'), x.idx + (add(x.off, i),)), l), 'multipole of each point')
    ob(eq(eng.eval_content(s, eng.content(st, y.obj, '', 'double'), y.idx + (add(y.off, i),)), app('$exp', (neg(rdiv(mul(l, l, sg, sg), 2)),), 'R')), 'Gaussian value of each point')
    return Ptr(eng.param_obj('table', 0, 'nmt_k_function'))


SPECS.append(Spec('fs_generate_beam_window', pre=lambda e: [gt(v('fwhm_amin', 'R'), 0)], lens={'table': 1}, contracts={'nmt_k_function_alloc': c_kalloc},
                  post=lambda q: [('the table is returned', TRUE if isinstance(q.ret, Ptr) and q.ret.obj.name == 'table' else FALSE_Q)]))
