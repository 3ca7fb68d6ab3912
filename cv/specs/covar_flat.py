"""Flat-sky Gaussian covariances (nmt_covar_flat.c)."""
from .covar import *
from .covar import pair_index, c_pair, ghost_matrix, XIN
from .bins_flat import flat_lens, sorted_bands, bandof_def, bandof
from .fsky import *
from .fsky import kcomp, kmod, half
from ..libc import PI

SPECS = []
NBD = A('cw.bin.n_bands')


def FB(nm, c, b):
    """bandpower of table nm (value proved for nmt_bin_cls_flat)"""
    return app('FB:' + nm, (num(c), num(b)), 'R')


def c_fbin(eng, st, args, e):
    b, nl, larr, ci, co, n = ev(eng, st, args)
    n = const_val(num(n))
    if n is None:
        raise Unsupported('number of spectra not constant')
    nb = A(b.obj.name + '.n_bands')
    eng.oblige(st, and_(ge(nl, 1), ge(nb, 1)), 'nmt_bin_cls_flat: sizes', 'mem', e.line)
    eng.oblige(st, TRUE if b.obj.name == 'cw.bin' else FALSE_Q, 'spectra are binned with the bands of the covariance workspace', 'post', e.line)
    eng.check_range(st, larr, nl, e.line, 'larr')
    if eng.simp_ptr(st, larr).obj.name != 'larr':
        raise Unsupported('multipoles')
    for c in range(int(n)):
        src = eng.simp_ptr(st, eng.load(st, eng.padd(st, ci, I(c)), 'flouble *', e.line))
        dst = eng.simp_ptr(st, eng.load(st, eng.padd(st, co, I(c)), 'flouble *', e.line))
        eng.check_range(st, src, nl, e.line, 'input spectrum')
        eng.check_range(st, dst, nb, e.line, 'output bandpowers')
        nm, ix = src.obj.name, src.idx
        eng.bulk(st, dst, nb, lambda k, nm=nm, ix=ix: FB(nm, ix[0], k), None, 'double', e.line)
    return UNDEF


def fcov_elem(n, comp, ba, bb):
    na, nb, nc, nd = n
    ia, ib, ic, id_ = comp
    xi = lambda k, t: A('cw.%s_%s[]' % (XIN[k], t), ba, bb, s='R') if 0 <= k <= 3 else neg(A('cw.xi22m_%s[]' % t, ba, bb, s='R')) if k == 4 else None
    half = rdiv(1, 2)
    sym = lambda x, i, y, j: mul(half, add(mul(FB(x + '[]', i, ba), FB(y + '[]', j, bb)), mul(FB(x + '[]', i, bb), FB(y + '[]', j, ba))))
    tot = ZERO
    for iap, ibp, icp, idp in product(range(na), range(nb), range(nc), range(nd)):
        k = xi(pair_index((na, nc, nb, nd), (ia, iap, ic, icp, ib, ibp, id_, idp)), '1122')
        if k is not None:
            tot = add(tot, mul(k, sym('clac', icp + nc * iap, 'clbd', idp + nd * ibp)))
        k = xi(pair_index((na, nd, nb, nc), (ia, iap, id_, idp, ib, ibp, ic, icp)), '1221')
        if k is not None:
            tot = add(tot, mul(k, sym('clad', idp + nd * iap, 'clbc', icp + nc * ibp)))
    return tot


def fcov_lens(n):
    na, nb, nc, nd = n
    L = {'cw': 1, 'larr': v('nl')}
    for f in XIN:
        for t in ('1122', '1221'):
            x = 'cw.%s_%s' % (f, t)
            L[x] = NBD
            L[x + '[]'] = lambda i: NBD
    for x, m in (('clac', na * nc), ('clad', na * nd), ('clbc', nb * nc), ('clbd', nb * nd)):
        L[x] = m
        L[x + '[]'] = lambda i: v('nl')
    for w in ('wa', 'wb'):
        L[w] = 1
        L.update(flat_lens(w + '.bin'))
    L.update(flat_lens('cw.bin'))
    L['covar_out'] = mul(na * nb, A('wa.bin.n_bands'), nc * nd, A('wb.bin.n_bands'))
    return L


def fcov_pre(n):
    na, nb, nc, nd = n

    def f(e):
        r = [ge(v('nl'), 1), ge(NBD, 1)]
        for w, m in (('wa', na * nb), ('wb', nc * nd)):
            r += [ge(A(w + '.bin.n_bands'), 1)]
            for g in ('size1', 'size2'):
                r.append(eq(A(w + '.coupling_matrix_binned_gsl.' + g), mul(m, A(w + '.bin.n_bands'))))
            r.append(eq(A(w + '.coupling_matrix_perm.size', 0), mul(m, A(w + '.bin.n_bands'))))
        for x, m in zip('abcd', (na, nb, nc, nd)):
            if m == 2:
                r.append(ge(v('spin_' + x), 1))
        return r
    return f


def fcov_elems(n):
    na, nb, nc, nd = n

    def g():
        ba, bb = sk(), sk()
        for comp in product(range(na), range(nb), range(nc), range(nd)):
            ia, ib, ic, id_ = comp
            yield ('binned covariance of components %s' % (comp,), and_(rng(ba, 0, NBD), rng(bb, 0, NBD)),
                   (add(mul(na * nb, ba), ib + nb * ia), add(mul(nc * nd, bb), id_ + nd * ic)), fcov_elem(n, comp, ba, bb))
    return g


def fcov_post(n):
    na, nb, nc, nd = n

    def post(q):
        r, c, k, m = sk(), sk(), fresh('k'), fresh('m')
        N, M = mul(na * nb, NBD), mul(nc * nd, NBD)
        d = and_(rng(r, 0, N), rng(c, 0, M))
        q1 = q.at(d)
        want = sum_(k, 0, N, mul(A('luinv:wa.coupling_matrix_binned_gsl', r, k, s='R'), sum_(m, 0, M, mul(A('CBIN', k, m, s='R'), A('luinv:wb.coupling_matrix_binned_gsl', c, m, s='R')))))
        yield ('covariance is the binned one between the inverse matrices', eq(q1.rd('covar_out', add(mul(r, M), c)), want), d)
        b = sk()
        for w in ('wa', 'wb'):
            yield ('accepted only if the bands agree (%s)' % w, and_(eq(A(w + '.bin.n_bands'), NBD), implies(rng(b, 0, NBD),
                   and_(eq(A(w + '.bin.ell_0_list', b, s='R'), A('cw.bin.ell_0_list', b, s='R')), eq(A(w + '.bin.ell_f_list', b, s='R'), A('cw.bin.ell_f_list', b, s='R'))))))
    return post


def band_differs(x, y, b):
    g = lambda o, a: A('%s.%s' % (o, a), b, s='R')
    return and_(rng(b, 0, A(x + '.n_bands')), or_(ne(g(x, 'ell_0_list'), g(y, 'ell_0_list')), ne(g(x, 'ell_f_list'), g(y, 'ell_f_list'))))


def diff_def(x, y):
    """choice of a band in which two schemes differ, if there is one"""
    b, w = fresh('b'), app('DIFF:' + x, (), 'I')
    return [fa((b,), A(x + '.ell_0_list', b, s='R'), implies(band_differs(x, y, b), band_differs(x, y, w)), 'some band differs')]


def bins_differ(x, y):
    return or_(ne(A(x + '.n_bands'), A(y + '.n_bands')), band_differs(x, y, app('DIFF:' + x, (), 'I')))


def fcov_err(n):
    na, nb, nc, nd = n
    differs = lambda w: bins_differ(w + '.bin', 'cw.bin')
    return lambda e, x: or_(differs('wa'), differs('wb'), ne(A('wa.ncls'), na * nb), ne(A('wb.ncls'), nc * nd))


for n in product((1, 2), repeat=4):
    na, nb, nc, nd = n
    ar = {'spin_' + x: 0 for x, k in zip('abcd', n) if k == 1}
    nm = '%d%d%d%d' % tuple(2 * (k - 1) for k in n)
    SPECS.append(Spec('nmt_compute_gaussian_covariance_flat', name='nmt_compute_gaussian_covariance_flat[%s]' % nm, args=ar, lens=fcov_lens(n), pre=fcov_pre(n),
                      contracts={'cov_get_coupling_pair_index': c_pair, 'nmt_bin_cls_flat': c_fbin, 'gsl_blas_dgemm': ghost_matrix('CBIN', fcov_elems(n))},
                      facts=lambda e: diff_def('wa.bin', 'cw.bin') + diff_def('wb.bin', 'cw.bin'), post=fcov_post(n), error_ok=fcov_err(n), cost=4 ** (sum(n) - 4) / 8,
                      opts={'fixed': {'wa.ncls': na * nb, 'wb.ncls': nc * nd}}))


# ---------------------------------------------------------------- workspace
FTV = var('p$ft', 'I')


def ftname(T):
    """name of the transform of the map p -> T(p) and its remaining free variables"""
    fv = sorted((x for x in T.fv if x is not FTV), key=lambda x: str(x.a[0]))
    m = {x: var('$a%d' % i, x.sort) for i, x in enumerate(fv)}
    return 'FT:%d' % subst(T, m).id, tuple(fv)


def FTof(T, k):
    """(re, im) of mode k of the transform of the map p -> T(p), p being FTV"""
    nm, fv = ftname(T)
    return app(nm + '.re', fv + (k,), 'R'), app(nm + '.im', fv + (k,), 'R')


def patch_of(eng, st, fs):
    g = lambda n, ty: eng.load_fld(st, Ptr(fs.obj, fs.idx, fs.off, n), n, ty)
    return g('nx', 'int'), g('ny', 'int'), g('lx', 'double'), g('ly', 'double')


def c_map2alm(o):
    """contract of fs_map2alm on the patch of object o: the modes are those of the maps (spin 0)"""
    dims = A(o + '.nx'), A(o + '.ny'), A(o + '.lx', s='R'), A(o + '.ly', s='R')
    npix, nm = mul(dims[0], dims[1]), mul(dims[1], add(idiv(dims[0], 2), 1))

    def f(eng, st, args, e):
        fs, nt, spin, maps, alms = ev(eng, st, args)
        eng.oblige(st, and_(*[eq(a, b) for a, b in zip(patch_of(eng, st, fs), dims)]), 'transform on the patch of the fields', 'post', e.line)
        if not (const_val(num(spin)) == 0 and const_val(num(nt)) is not None):
            raise Unsupported('fs_map2alm: spin')
        for c in range(int(const_val(num(nt)))):
            src = eng.simp_ptr(st, eng.load(st, eng.padd(st, maps, I(c)), 'flouble *', e.line))
            dst = eng.simp_ptr(st, eng.load(st, eng.padd(st, alms, I(c)), 'fcomplex *', e.line))
            eng.check_range(st, src, npix, e.line, 'map')
            eng.check_range(st, dst, nm, e.line, 'modes')
            s = st.copy()
            s.assume(rng(FTV, 0, npix))
            T = num(eng.eval_content(s, eng.content(st, src.obj, src.fld, 'double'), src.idx + (add(src.off, FTV),)))
            for j, part in enumerate(('re', 'im')):
                eng.bulk(st, dst, nm, lambda k, j=j: FTof(T, k)[j], part, 'double', e.line)
        return UNDEF
    return f


def c_search_copy(of):
    """contract of nmt_bins_flat_search_fast for schemes whose edges agree with those of `of`"""
    def f(eng, st, args, e):
        b, l, il = [eng.ex(st, a) for a in args]
        nb = A(of + '.n_bands')
        i = fresh('i')
        s = st.copy()
        g = lambda n, ty: eng.load_fld(st, Ptr(b.obj, b.idx, b.off, n), n, ty)
        if b.obj.name != of:
            eng.oblige(st, eq(g('n_bands', 'int'), nb), 'searched bands are those of the scheme (count)', 'post', e.line)
            s.assume(rng(i, 0, nb))
            for n in ('ell_0_list', 'ell_f_list'):
                x = eng.load_fld(s, eng.padd(s, eng.simp_ptr(st, g(n, 'double *')), i), '', 'double')
                eng.oblige(s, eq(x, A(of + '.' + n, i, s='R')), 'searched bands are those of the scheme (%s)' % n, 'post', e.line)
        eng.oblige(st, and_(ge(nb, 1), lt(il, nb)), 'precondition of nmt_bins_flat_search_fast', 'mem', e.line)
        return bandof(l, of)
    return f


FS = 'fla1.fs'
FX, FY, FLX, FLY = A(FS + '.nx'), A(FS + '.ny'), A(FS + '.lx', s='R'), A(FS + '.ly', s='R')
FLDS = ('fla1', 'fla2', 'flb1', 'flb2')
NBA = A('ba.n_bands')


def maskft(a, b, k):
    return FTof(mul(A(a + '.mask', FTV, s='R'), A(b + '.mask', FTV, s='R')), k)


def modeang(ix, iy):
    """cos, sin of twice the angle of a wave vector"""
    kx, ky = kcomp(ix, FX, FLX), kcomp(iy, FY, FLY)
    k = kmod(kx, ky)
    c, s = ite(gt(k, 0), rdiv(kx, k), 1), ite(gt(k, 0), rdiv(ky, k), 0)
    return sub(mul(c, c), mul(s, s)), mul(2, s, c)


def fwsp_post(q):
    r = q.ret
    i, j = sk(), sk()
    b = q.fld(r, 'bin', 'nmt_binning_scheme_flat *')
    yield ('number of bands', eq(q.fld(b, 'n_bands'), NBA))
    for n in ('ell_0_list', 'ell_f_list'):
        q0 = q.at(rng(i, 0, NBA))
        yield ('band edges kept (%s)' % n, eq(q0.idx(q0.fld(b, n, 'double *'), i), A('ba.' + n, i, s='R')), rng(i, 0, NBA))
    d = and_(rng(i, 0, NBA), rng(j, 0, NBA))
    q1 = q.at(d)
    X1, Y1, X2, Y2 = fresh('ix'), fresh('iy'), fresh('jx'), fresh('jy')
    bo = lambda x, y: bandof(kmod(kcomp(x, FX, FLX), kcomp(y, FY, FLY)), 'ba')
    bi = lambda x, y: ite(ge(bo(x, y), 0), bo(x, y), -1)
    inb = lambda x, y, b: and_(ge(bo(x, y), 0), eq(bo(x, y), b))
    S = lambda f: sum_(Y1, 0, FY, sum_(X1, 0, FX, sum_(Y2, 0, FY, sum_(X2, 0, FX, f))))
    N = lambda b: sum_(Y1, 0, FY, sum_(X1, 0, FX, iv(inb(X1, Y1, b))))
    w = lambda a, n: ite(lt(a, 0), add(a, n), a)
    dx, dy = w(sub(X1, X2), FX), w(sub(Y1, Y2), FY)
    hf = le(mul(2, dx), FX)
    k = add(ite(hf, dx, sub(FX, dx)), mul(add(idiv(FX, 2), 1), ite(hf, dy, imod(sub(FY, dy), FY))))
    (c1, s1), (c2, s2) = modeang(X1, Y1), modeang(X2, Y2)
    cd, sd = add(mul(c1, c2), mul(s1, s2)), sub(mul(s1, c2), mul(c1, s2))
    ker = {'xi00': ONE, 'xi02': cd, 'xi22p': mul(cd, cd), 'xi22m': mul(sd, sd)}
    prs = {'1122': (('fla1', 'flb1'), ('fla2', 'flb2')), '1221': (('fla1', 'flb2'), ('fla2', 'flb1'))}
    norm = rdiv(mul(4, PI, PI), mul(FLX, FLX, FLY, FLY, N(i), N(j)))
    for t in prs:
        (a, a_), (b, b_) = maskft(*prs[t][0], k), maskft(*prs[t][1], k)
        cross = add(mul(a, b), mul(a_, b_))
        for x in ker:
            row = q1.idx(q1.fld(r, '%s_%s' % (x, t), 'flouble **'), i, 'flouble *')
            want = ite(le(mul(N(i), N(j)), 0), 0, mul(norm, S(ite(and_(ge(bi(X1, Y1), 0), ge(bi(X2, Y2), 0), eq(bi(X1, Y1), i), eq(bi(X2, Y2), j)), mul(cross, ker[x]), 0))))
            yield ('%s_%s is the pair sum over the modes of both bands' % (x, t), eq(q1.idx(row, j), want), d)


def fwsp_pre(e):
    r = [ge(NBA, 1), ge(A('bb.n_bands'), 0)]
    for f in FLDS:
        o = f + '.fs.'
        r += [ge(A(o + 'nx'), 1), ge(A(o + 'ny'), 1), eq(A(o + 'npix'), mul(A(o + 'nx'), A(o + 'ny'))), gt(A(o + 'lx', s='R'), 0), gt(A(o + 'ly', s='R'), 0)]
    return r


def fwsp_err(e, x):
    res = [ne(A('%s.fs.%s' % (f, g), s=so), A('%s.%s' % (FS, g), s=so)) for f in FLDS[1:] for g, so in (('nx', 'I'), ('ny', 'I'), ('lx', 'R'), ('ly', 'R'))]
    return or_(bins_differ('bb', 'ba'), *res)


SPECS.append(Spec('nmt_covar_workspace_flat_init',
                  lens={**{f: 1 for f in FLDS}, **{f + '.fs': 1 for f in FLDS}, **{f + '.mask': A(f + '.fs.npix') for f in FLDS}, **flat_lens('ba'), **flat_lens('bb')},
                  pre=fwsp_pre, facts=lambda e: sorted_bands('ba') + bandof_def('ba') + diff_def('bb', 'ba'), error_ok=fwsp_err,
                  opts={'inv': [lambda x: lt(x, NBA)]}, cost=50,
                  contracts={'fs_map2alm': c_map2alm(FS), 'nmt_bins_flat_search_fast': c_search_copy('ba')}, post=fwsp_post, timeout=20000))
