from .common import *

SPECS = []

NB, EM = A('bin.n_bands'), A('bin.ell_max')
NELL = lambda b: A('bin.nell_list', b)
ELL = lambda b, i: A('bin.ell_list[]', b, i)
W = lambda b, i: A('bin.w_list[]', b, i, s='R')
F = lambda b, i: A('bin.f_ell[]', b, i, s='R')


def cls(n, c, l): return A(n + '[]', c, l, s='R')


def bin_post(q):
    c, b, i = sk(), sk(), fresh('i')
    d = and_(rng(c, 0, v('ncls')), rng(b, 0, NB))
    q = q.at(d)
    yield ('bandpower is the weighted sum', eq(q.rd('cls_out[]', c, b),
           sum_(i, 0, NELL(b), mul(W(b, i), F(b, i), cls('cls_in', c, ELL(b, i))))), d)


SPECS.append(Spec('nmt_bin_cls', lens={**bin_lens(), 'cls_in': v('ncls'), 'cls_out': v('ncls'),
    'cls_in[]': lambda c: add(EM, 1), 'cls_out[]': lambda c: NB},
    pre=lambda e: [le(0, NB), le(0, v('ncls'))], facts=lambda e: bin_inv(), post=bin_post))


def elleff_post(q):
    b, i = sk(), fresh('i')
    d = rng(b, 0, NB)
    q = q.at(d)
    yield ('effective multipole', eq(q.rd('larr', b), sum_(i, 0, NELL(b), mul(W(b, i), ELL(b, i)))), d)


SPECS.append(Spec('nmt_ell_eff', lens={**bin_lens(), 'larr': NB}, pre=lambda e: [le(0, NB)], facts=lambda e: bin_inv(), post=elleff_post))


# ---- unbinning: each multipole belongs to at most one band (ghost inverse maps binof/posof)
def inj():
    b, i = fresh('b'), fresh('i')
    return [fa((b, i), ELL(b, i), implies(and_(rng(b, 0, NB), rng(i, 0, NELL(b))),
            and_(eq(A('binof', ELL(b, i)), b), eq(A('posof', ELL(b, i)), i))), 'one band per multipole')]


def unbin_post(q):
    c, b, i = sk(), sk(), sk()
    d = and_(rng(c, 0, v('ncls')), rng(b, 0, NB), rng(i, 0, NELL(b)))
    q1 = q.at(d)
    yield ('unbinned value', eq(q1.rd('cls_out[]', c, ELL(b, i)), rdiv(cls('cls_in', c, b), F(b, i))), d)
    l = sk()
    d = and_(rng(c, 0, v('ncls')), rng(l, 0, add(EM, 1)), not_(and_(rng(A('binof', l), 0, NB), rng(A('posof', l), 0, NELL(A('binof', l))), eq(ELL(A('binof', l), A('posof', l)), l))))
    q2 = q.at(d)
    yield ('multipoles outside every band keep their value', eq(q2.rd('cls_out[]', c, l), cls('cls_out', c, l)), d)


SPECS.append(Spec('nmt_unbin_cls', lens={**bin_lens(), 'cls_in': v('ncls'), 'cls_out': v('ncls'),
    'cls_in[]': lambda c: NB, 'cls_out[]': lambda c: add(EM, 1)},
    pre=lambda e: [le(0, NB), le(0, v('ncls'))], facts=lambda e: bin_inv() + inj(), post=unbin_post))


def const_post(q):
    b, i = sk(), sk()
    nlb = v('nlb')
    r = q.ret
    yield ('band count', eq(q.fld(r, 'n_bands'), idiv(sub(v('lmax'), 1), nlb)))
    yield ('lmax', eq(q.fld(r, 'ell_max'), v('lmax')))
    d = and_(rng(b, 0, idiv(sub(v('lmax'), 1), nlb)), rng(i, 0, nlb))
    q = q.at(d)
    ell = add(2, mul(b, nlb), i)
    row = lambda n, ty: q.idx(q.idx(q.fld(r, n, ty + ' **'), b, ty + ' *'), i, ty)
    yield ('nell', eq(q.idx(q.fld(r, 'nell_list', 'int *'), b, 'int'), nlb), d)
    yield ('ells', eq(row('ell_list', 'int'), ell), d)
    yield ('weights', eq(row('w_list', 'double'), rdiv(1, nlb)), d)
    yield ('no multipole above lmax', le(ell, v('lmax')), d)
    yield ('f_ell', eq(row('f_ell', 'double'), ite(ne(v('is_l2'), 0), rdiv(mul(ell, add(ell, 1)), mul(2, PI)), 1)), d)


SPECS.append(Spec('nmt_bins_constant', pre=lambda e: [ge(v('nlb'), 1), ge(v('lmax'), 2)], post=const_post))


# ---- arbitrary assignment of multipoles to bands
def create_post(q):
    k, b = sk(), sk()
    n = v('nell')
    ok = lambda i: and_(le(A('ells', i), v('lmax')), ge(A('bpws', i), 0))
    r = q.ret
    bk = A('bpws', k)
    j = fresh('j')
    pos = sum_(j, 0, k, ite(and_(ok(j), eq(A('bpws', j), bk)), 1, 0))
    d = and_(rng(k, 0, n), ok(k))
    nb = q.fld(r, 'n_bands')
    yield ('every assigned band exists', lt(bk, nb), d)
    yield ('lmax', eq(q.fld(r, 'ell_max'), v('lmax')))
    db = rng(b, 0, nb)
    j2 = fresh('j')
    yield ('band size', eq(q.at(db).idx(q.at(db).fld(r, 'nell_list', 'int *'), b, 'int'),
                           sum_(j2, 0, n, ite(and_(ok(j2), eq(A('bpws', j2), b)), 1, 0))), db)
    q = q.at(d)
    row = lambda nm, ty: q.idx(q.idx(q.fld(r, nm, ty + ' **'), bk, ty + ' *'), pos, ty)
    yield ('multipole stored in its band', eq(row('ell_list', 'int'), A('ells', k)), d)
    ff = A('f_ell', k, s='R')
    k2 = sk()
    d2 = and_(d, rng(k2, 0, n), ok(k2), eq(A('bpws', k2), bk))
    q2 = q.at(d2)
    pos2 = sum_(j, 0, k2, ite(and_(ok(j), eq(A('bpws', j), bk)), 1, 0))
    wl = lambda p: q2.idx(q2.idx(q2.fld(r, 'w_list', 'double **'), bk, 'double *'), p, 'double')
    yield ('weights keep their proportions', eq(mul(wl(pos), A('weights', k2, s='R')), mul(wl(pos2), A('weights', k, s='R'))), d2)
    q3 = q.at(db)
    i3 = fresh('i')
    nl = q3.idx(q3.fld(r, 'nell_list', 'int *'), b, 'int')
    q4 = q3.at(rng(i3, 0, nl))
    yield ('weights of a band sum to one', eq(sum_(i3, 0, nl, q4.idx(q4.idx(q4.fld(r, 'w_list', 'double **'), b, 'double *'), i3, 'double')), 1), db)
    yield ('f_ell stored', eq(row('f_ell', 'double'), ite(le(ff, 0), 1, ff)), d)


SPECS.append(Spec('nmt_bins_create', lens={'bpws': v('nell'), 'ells': v('nell'), 'weights': v('nell'), 'f_ell': v('nell')},
    pre=lambda e: [ge(v('nell'), 1), ge(v('lmax'), 0)], post=create_post,
    error_ok=lambda e, x: TRUE))
