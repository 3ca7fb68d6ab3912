"""Gaussian covariances (utils.c, nmt_covar.c)."""
from itertools import product
from .coeffs import *
from .coeffs import c_master, XI, xi_tag
from ..engine import Base
from ..libc import PI

SPECS = []


# ---------------------------------------------------------------- which coefficient enters for a pair of component pairs
def kern(na, nc, ia, iap, ic, icp):
    """pseudo-coefficients (ia,ic) from true ones (iap,icp): (kind, sign); kinds '0' scalar, '+', '-' parity mixing"""
    if na == 1 or nc == 1:
        return ('0', 1) if (ia, ic) == (iap, icp) else (None, 0)
    if (ia, ic) == (iap, icp): return ('+', 1)
    if ia == iap: return ('-', 1 if ic else -1)
    if ic == icp: return ('-', -1 if ia else 1)
    return (None, 0)


def pidx(k1, k2):
    t, s = {k1[0], k2[0]}, k1[1] * k2[1]
    if None in t: return 5
    if t == {'0'}: return 0
    if t == {'0', '+'}: return 1
    if t == {'+'}: return 2
    if t == {'-'}: return 3 if s > 0 else 4
    return 5


def pair_index(n, ix):
    na, nc, nb, nd = n
    ia1, ia2, ic1, ic2, ib1, ib2, id1, id2 = ix
    return pidx(kern(na, nc, ia1, ia2, ic1, ic2), kern(nb, nd, ib1, ib2, id1, id2))


IXN = ('ia1', 'ia2', 'ic1', 'ic2', 'ib1', 'ib2', 'id1', 'id2')


def pair_post(n):
    def post(q):
        lim = [n[0], n[0], n[1], n[1], n[2], n[2], n[3], n[3]]
        for ix in product(*[range(k) for k in lim]):
            d = and_(*[eq(v(x), y) for x, y in zip(IXN, ix)])
            yield ('coefficient index for components %s' % (ix,), eq(q.ret, pair_index(n, ix)), d)
    return post


for n in product((1, 2), repeat=4):
    lim = [n[0], n[0], n[1], n[1], n[2], n[2], n[3], n[3]]
    SPECS.append(Spec('cov_get_coupling_pair_index', name='cov_get_coupling_pair_index[%d%d%d%d]' % n,
                      args=dict(zip(('na', 'nc', 'nb', 'nd'), n)),
                      pre=lambda e, lim=lim: [rng(v(x), 0, k) for x, k in zip(IXN, lim)], post=pair_post(n)))


def c_pair(eng, st, args, e):
    xs = [num(x) for x in ev(eng, st, args)]
    cs = [const_val(x) for x in xs]
    if None in cs:
        raise Unsupported('component indices not constant %s' % (xs,))
    cs = [int(c) for c in cs]
    lim = [cs[0], cs[0], cs[1], cs[1], cs[2], cs[2], cs[3], cs[3]]
    if not all(c in (1, 2) for c in cs[:4]) or not all(0 <= x < k for x, k in zip(cs[4:], lim)):
        eng.oblige(st, FALSE_Q, 'cov_get_coupling_pair_index: indices in range', 'mem', e.line)
        return ZERO
    return I(pair_index(cs[:4], cs[4:]))


# ---------------------------------------------------------------- nmt_covar_workspace_init
def init_post(s0):
    def post(q):
        a, b = sk(), sk()
        N1 = add(v('lmax'), 1)
        d = and_(rng(a, 0, N1), rng(b, 0, N1))
        q1 = q.at(d)
        x = {'lmax': v('lmax'), 'lmax_mask': v('lmax_mask'), 's1': ZERO, 's2': ZERO if s0 else I(2), 'do_teb': ZERO if s0 else ONE,
             'l_toeplitz': v('l_toeplitz'), 'l_exact': v('l_exact'), 'dl_band': v('dl_band')}
        x.update({f: ZERO for f in PURE})
        tag = xi_tag(x)
        for f, nm in (('xi00', 'xi_00'), ('xi02', 'xi_0s'), ('xi22p', 'xi_pp'), ('xi22m', 'xi_mm')):
            if s0 and f != 'xi00':
                continue
            for ic, t in ((0, '1122'), (1, '1221')):
                p = q1.fld(q1.ret, '%s_%s' % (f, t), 'flouble **')
                got = q1.idx(q1.idx(p, a, 'flouble *'), b)
                yield ('%s_%s' % (f, t), eq(got, XI(nm, tag, ic, 0, a, b)), d)
        for f in ('lmax', 'lmax_mask', 'spin0_only'):
            yield (f, eq(q.fld(q.ret, f), I(s0) if f == 'spin0_only' else v(f)))
    return post


def cov_pcl(ic, l):
    f = rdiv(add(l, rdiv(1, 2)), mul(2, PI))
    return ite(eq(ic, 0), mul(A('cl_masks_11_22', l, s='R'), f), mul(A('cl_masks_12_21', l, s='R'), f))


for s0 in (0, 1):
    SPECS.append(Spec('nmt_covar_workspace_init', name='nmt_covar_workspace_init[spin0_only=%d]' % s0, args={'spin0_only': s0},
                      lens={'cl_masks_11_22': add(v('lmax_mask'), 1), 'cl_masks_12_21': add(v('lmax_mask'), 1)},
                      pre=lambda e: [ge(v('lmax'), 0), ge(v('lmax_mask'), 0)],
                      contracts={'nmt_compute_master_coefficients': c_master(cov_pcl, I(2))}, post=init_post(s0)))


# ---------------------------------------------------------------- nmt_compute_gaussian_covariance[_coupled]
CL = A('cw.lmax')


def binq(w):
    return dict(nb=A(w + '.bin.n_bands'), nell=lambda b: A(w + '.bin.nell_list', b), ell=lambda b, i: A(w + '.bin.ell_list[]', b, i),
                w=lambda b, i: A(w + '.bin.w_list[]', b, i, s='R'), f=lambda b, i: A(w + '.bin.f_ell[]', b, i, s='R'))


XIN = ('xi00', 'xi02', 'xi22p', 'xi22m')


def cov_elem(n, comp, la, lb, coupled=False):
    """covariance of the pseudo-spectra (a ia, b ib)(la) and (c ic, d id)(lb)"""
    na, nb, nc, nd = n
    ia, ib, ic, id_ = comp
    xi = lambda k, t: A('cw.%s_%s[]' % (XIN[k], t), la, lb, s='R') if 0 <= k <= 3 else neg(A('cw.xi22m_%s[]' % t, la, lb, s='R')) if k == 4 else None
    half = rdiv(1, 2)
    sym = lambda x, i, y, j: mul(half, add(mul(A(x + '[]', i, la, s='R'), A(y + '[]', j, lb, s='R')), mul(A(x + '[]', i, lb, s='R'), A(y + '[]', j, la, s='R'))))
    tot = ZERO
    for iap, ibp, icp, idp in product(range(na), range(nb), range(nc), range(nd)):
        k = xi(pair_index((na, nc, nb, nd), (ia, iap, ic, icp, ib, ibp, id_, idp)), '1122')
        if k is not None:
            tot = add(tot, mul(k, sym('clac', icp + nc * iap, 'clbd', idp + nd * ibp)))
        k = xi(pair_index((na, nd, nb, nc), (ia, iap, id_, idp, ib, ibp, ic, icp)), '1221')
        if k is not None:
            tot = add(tot, mul(k, sym('clad', idp + nd * iap, 'clbc', icp + nc * ibp)))
    return tot


def w_inv(w):
    r = bin_inv(w + '.bin')
    b, i = fresh('b'), fresh('i')
    B = binq(w)
    r.append(fa((b, i), B['ell'](b, i), implies(and_(rng(b, 0, B['nb']), rng(i, 0, B['nell'](b))),
             and_(eq(A(w + '.binof', B['ell'](b, i)), b), eq(A(w + '.posof', B['ell'](b, i)), i))), 'one band per multipole'))
    return r


def cov_lens(n, coupled):
    na, nb, nc, nd = n
    L = {'cw': 1}
    for f in XIN:
        for t in ('1122', '1221'):
            x = 'cw.%s_%s' % (f, t)
            L[x] = add(CL, 1)
            L[x + '[]'] = lambda i: add(CL, 1)
    for x, m in (('clac', na * nc), ('clad', na * nd), ('clbc', nb * nc), ('clbd', nb * nd)):
        L[x] = m
        L[x + '[]'] = lambda i: add(CL, 1)
    for w in ('wa', 'wb'):
        L[w] = 1
        L.update(bin_lens(w + '.bin'))
    sz = add(CL, 1) if coupled else None
    L['covar_out'] = mul(na * nb, nc * nd, sz, sz) if coupled else mul(na * nb, A('wa.bin.n_bands'), nc * nd, A('wb.bin.n_bands'))
    return L


def cov_pre(n, s0, coupled):
    na, nb, nc, nd = n

    def f(e):
        r = [ge(CL, 0)]
        for w, m in (('wa', na * nb), ('wb', nc * nd)):
            r += [ge(A(w + '.bin.n_bands'), 1), ge(A(w + '.bin.ell_max'), 0)]
            for g in ('size1', 'size2'):
                r.append(eq(A(w + '.coupling_matrix_binned.' + g), mul(m, A(w + '.bin.n_bands'))))
            r.append(eq(A(w + '.coupling_matrix_perm.size', 0), mul(m, A(w + '.bin.n_bands'))))
        for x, m in zip('abcd', (na, nb, nc, nd)):
            if m == 2:
                r.append(ge(v('spin_' + x), 1))
        return r
    return f


def coupled_post(n):
    na, nb, nc, nd = n
    n1, n2 = na * nb, nc * nd

    def post(q):
        ba, i, bb, j = sk(), sk(), sk(), sk()
        X, Y = binq('wa'), binq('wb')
        d = and_(rng(ba, 0, X['nb']), rng(i, 0, X['nell'](ba)), rng(bb, 0, Y['nb']), rng(j, 0, Y['nell'](bb)))
        q1 = q.at(d)
        la, lb = X['ell'](ba, i), Y['ell'](bb, j)
        for comp in product(range(na), range(nb), range(nc), range(nd)):
            ia, ib, ic, id_ = comp
            got = q1.rd('covar_out', add(mul(add(mul(add(mul(n1, la), ib + nb * ia), add(CL, 1)), lb), n2), id_ + nd * ic))
            yield ('coupled covariance of components %s' % (comp,), eq(got, mul(cov_elem(n, comp, la, lb), X['f'](ba, i), Y['f'](bb, j))), d)
        l1, l2 = sk(), sk()
        free = lambda w, B, l: not_(and_(rng(A(w + '.binof', l), 0, B['nb']), rng(A(w + '.posof', l), 0, B['nell'](A(w + '.binof', l))), eq(B['ell'](A(w + '.binof', l), A(w + '.posof', l)), l)))
        d = and_(rng(l1, 0, add(CL, 1)), rng(l2, 0, add(CL, 1)), or_(free('wa', X, l1), free('wb', Y, l2)))
        q2 = q.at(d)
        for c1, c2 in product(range(n1), range(n2)):
            yield ('multipoles outside the bands have no covariance (%d,%d)' % (c1, c2), eq(q2.rd('covar_out', add(mul(add(mul(add(mul(n1, l1), c1), add(CL, 1)), l2), n2), c2)), 0), d)
    return post


def ghost_matrix(name, elems):
    """dgemm contract with a ghost assertion: a matrix filled element by element is first checked against `elems` (domain, location, value) and then only known by name"""
    from ..libc import LIB, gsl_data, gsl_ptr, gsl_get, gsl_size

    def f(eng, st, args, e):
        a = ev(eng, st, args)
        for x in (a[3], a[4]):
            p = gsl_ptr(eng, st, x)
            if p.obj.kind == 'param' or p.obj.name in eng.opts.get('$filled', ()):
                continue
            for nm, d, loc, val in elems():
                s = st.copy()
                s.assume(d)
                eng.oblige(s, eq(gsl_get(eng, s, p, loc), val), nm, 'post', e.line)
            key, c = gsl_data(eng, st, p)
            eng.opts.setdefault('$filled', set()).add(p.obj.name)
            st.mem[key] = Content(Base(name, lambda loc: app(name, loc, 'R')))
        return LIB['gsl_blas_dgemm'](eng, st, args, e)
    return f


def binned_elems(n):
    na, nb, nc, nd = n

    def g():
        X, Y = binq('wa'), binq('wb')
        ba, bb = sk(), sk()
        for comp in product(range(na), range(nb), range(nc), range(nd)):
            ia, ib, ic, id_ = comp
            i, j = fresh('i'), fresh('j')
            la, lb = X['ell'](ba, i), Y['ell'](bb, j)
            e = sum_(i, 0, X['nell'](ba), sum_(j, 0, Y['nell'](bb), mul(cov_elem(n, comp, la, lb), X['w'](ba, i), X['f'](ba, i), Y['w'](bb, j), Y['f'](bb, j))))
            yield ('binned covariance of components %s' % (comp,), and_(rng(ba, 0, X['nb']), rng(bb, 0, Y['nb'])),
                   (add(mul(na * nb, ba), ib + nb * ia), add(mul(nc * nd, bb), id_ + nd * ic)), e)
    return g


def binned_post(n):
    na, nb, nc, nd = n
    n1, n2 = na * nb, nc * nd

    def post(q):
        r, c, k, m = sk(), sk(), fresh('k'), fresh('m')
        N, M = mul(n1, A('wa.bin.n_bands')), mul(n2, A('wb.bin.n_bands'))
        d = and_(rng(r, 0, N), rng(c, 0, M))
        q1 = q.at(d)
        want = sum_(k, 0, N, mul(A('luinv:wa.coupling_matrix_binned', r, k, s='R'), sum_(m, 0, M, mul(A('CBIN', k, m, s='R'), A('luinv:wb.coupling_matrix_binned', c, m, s='R')))))
        yield ('covariance is the binned one between the inverse matrices', eq(q1.rd('covar_out', add(mul(r, M), c)), want), d)
    return post


def cov_err(n):
    na, nb, nc, nd = n
    sp = add(*[v('spin_' + x) if k == 2 else ZERO for x, k in zip('abcd', n)])
    return lambda e, x: or_(lt(CL, A('wa.bin.ell_max')), lt(CL, A('wb.bin.ell_max')), and_(ne(A('cw.spin0_only'), 0), ne(sp, 0)),
                            ne(A('wa.ncls'), na * nb), ne(A('wb.ncls'), nc * nd))


for n in product((1, 2), repeat=4):
    na, nb, nc, nd = n
    ar = {'spin_' + x: 0 for x, k in zip('abcd', n) if k == 1}
    nm = '%d%d%d%d' % tuple(2 * (k - 1) for k in n)
    for coupled in (True, False):
        fn = 'nmt_compute_gaussian_covariance' + ('_coupled' if coupled else '')
        SPECS.append(Spec(fn, name='%s[%s]' % (fn, nm), args=ar, lens=cov_lens(n, coupled), pre=cov_pre(n, 0, coupled),
                          facts=lambda e: w_inv('wa') + w_inv('wb'), contracts={'cov_get_coupling_pair_index': c_pair, **({} if coupled else {'gsl_blas_dgemm': ghost_matrix('CBIN', binned_elems(n))})},
                          post=(coupled_post if coupled else binned_post)(n), error_ok=cov_err(n), cost=4 ** (sum(n) - 4) / 8,
                          opts={'fixed': {'wa.ncls': na * nb, 'wb.ncls': nc * nd}}))
