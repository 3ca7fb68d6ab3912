from .common import *

SPECS = []
NB = A('bin.n_bands')
L0 = lambda b: A('bin.ell_0_list', b, s='R')
LF = lambda b: A('bin.ell_f_list', b, s='R')


def flat_lens(b='bin'):
    return {b: 1, b + '.ell_0_list': A(b + '.n_bands'), b + '.ell_f_list': A(b + '.n_bands')}


def sorted_bands(b='bin'):
    i, j = fresh('i'), fresh('j')
    nb = A(b + '.n_bands')
    l0 = lambda x: A(b + '.ell_0_list', x, s='R')
    lf = lambda x: A(b + '.ell_f_list', x, s='R')
    return [fa((i,), l0(i), implies(rng(i, 0, nb), lt(l0(i), lf(i)))),
            fa((i,), lf(i), implies(rng(i, 0, nb), lt(l0(i), lf(i)))),
            Fact2((i, j), lf(i), l0(j), implies(and_(le(0, i), lt(i, j), lt(j, nb)), le(lf(i), l0(j))), 'sorted')]


def bandof(x, b='bin'):
    return app('bandof:' + b, (x,), 'I')


def bandof_def(b='bin'):
    """definition of the (unique) band containing x, -1 if there is none"""
    x, i = fresh('x', 'R'), fresh('i')
    nb = A(b + '.n_bands')
    l0 = lambda y: A(b + '.ell_0_list', y, s='R')
    lf = lambda y: A(b + '.ell_f_list', y, s='R')
    r = bandof(x, b)
    return [fa((x,), r, and_(le(-1, r), lt(r, nb), implies(ge(r, 0), and_(le(l0(r), x), lt(x, lf(r)))))),
            Fact2((x, i), r, l0(i), implies(and_(rng(i, 0, nb), le(l0(i), x), lt(x, lf(i))), eq(r, i)), 'band of')]


def c_search(eng, st, args, e):
    """contract of nmt_bins_flat_search_fast as seen by its callers"""
    b, l, il = [eng.ex(st, a) for a in args]
    nm = b.obj.name
    eng.oblige(st, and_(ge(A(nm + '.n_bands'), 1), lt(il, A(nm + '.n_bands'))), 'precondition of nmt_bins_flat_search_fast', 'mem', e.line)
    return bandof(l, nm)


def search_post(q):
    r = q.ret
    l = v('l', 'R')
    b = sk()
    yield ('the result does not depend on the hint', eq(r, bandof(l)))
    yield ('result is a band or -1', and_(le(-1, r), lt(r, NB)))
    yield ('the returned band contains l', implies(ge(r, 0), and_(le(L0(r), l), lt(l, LF(r)))))
    yield ('-1 only if no band contains l', implies(and_(eq(r, -1), rng(b, 0, NB)), or_(lt(l, L0(b)), ge(l, LF(b)))))


SPECS.append(Spec('nmt_bins_flat_search_fast', lens=flat_lens(), pre=lambda e: [ge(NB, 1), lt(v('il'), NB)],
                  facts=lambda e: sorted_bands() + bandof_def(), post=search_post))


def const_post(q):
    r = q.ret
    nb = q.fld(r, 'n_bands')
    b = sk()
    lm = v('lmax', 'R')
    yield ('band count', eq(nb, trunc(rdiv(sub(lm, 1), v('nlb')))))
    d = rng(b, 0, nb)
    q = q.at(d)
    l0 = q.idx(q.fld(r, 'ell_0_list', 'double *'), b)
    lf = q.idx(q.fld(r, 'ell_f_list', 'double *'), b)
    yield ('lower edge', eq(l0, add(2, mul(v('nlb'), b))), d)
    yield ('upper edge', eq(lf, add(2, mul(v('nlb'), add(b, 1)))), d)
    yield ('bands stay below lmax+1', le(lf, add(lm, 1)), d)


SPECS.append(Spec('nmt_bins_flat_constant', pre=lambda e: [ge(v('nlb'), 1), ge(v('lmax', 'R'), 1)], post=const_post))


def create_post(q):
    r = q.ret
    b = sk()
    d = rng(b, 0, v('nell'))
    yield ('band count', eq(q.fld(r, 'n_bands'), v('nell')))
    q = q.at(d)
    yield ('lower edge', eq(q.idx(q.fld(r, 'ell_0_list', 'double *'), b), A('l0', b, s='R')), d)
    yield ('upper edge', eq(q.idx(q.fld(r, 'ell_f_list', 'double *'), b), A('lf', b, s='R')), d)


SPECS.append(Spec('nmt_bins_flat_create', lens={'l0': v('nell'), 'lf': v('nell')}, pre=lambda e: [ge(v('nell'), 1)], post=create_post))


def unbin_post(q):
    c, i, b = sk(), sk(), sk()
    x = A('larr', i, s='R')
    d = and_(rng(c, 0, v('ncls')), rng(i, 0, v('nl')), rng(b, 0, NB), le(L0(b), x), lt(x, LF(b)))
    d3 = and_(rng(c, 0, v('ncls')), rng(i, 0, v('nl')))
    bo = bandof(x)
    yield ('value of the containing band, -999 outside', eq(q.at(d3).rd('cls_out[]', c, i), ite(ge(bo, 0), A('cls_in[]', c, bo, s='R'), -999)), d3)
    yield ('multipoles of a band get its bandpower', eq(q.at(d).rd('cls_out[]', c, i), A('cls_in[]', c, b, s='R')), d)


SPECS.append(Spec('nmt_unbin_cls_flat', lens={**flat_lens(), 'larr': v('nl'), 'cls_in': v('ncls'), 'cls_out': v('ncls'),
    'cls_in[]': lambda c: NB, 'cls_out[]': lambda c: v('nl')}, pre=lambda e: [ge(NB, 1), ge(v('nl'), 0), ge(v('ncls'), 0)],
    facts=lambda e: sorted_bands() + bandof_def(), contracts={'nmt_bins_flat_search_fast': c_search}, post=unbin_post))


def elleff_post(q):
    b = sk()
    d = rng(b, 0, NB)
    yield ('effective multipole', eq(q.at(d).rd('larr', b), rdiv(add(L0(b), LF(b)), 2)), d)


SPECS.append(Spec('nmt_ell_eff_flat', lens={**flat_lens(), 'larr': NB}, pre=lambda e: [ge(NB, 0)], post=elleff_post))


# ---- binning: interpolation of the tabulated spectra at the band centres
def flat_binned(cls, c, b, n=None, bin='bin', larr='larr'):
    """value of table `cls` (row c, sampled at larr) at the centre of band b"""
    from .kfun import kspl
    n = v('nl') if n is None else n
    x = rdiv(add(A(bin + '.ell_0_list', b, s='R'), A(bin + '.ell_f_list', b, s='R')), 2)
    return kspl(larr, cls + '[]', (), (c,), n, x, A(cls + '[]', c, 0, s='R'), A(cls + '[]', c, sub(n, 1), s='R'), A(larr, 0, s='R'), A(larr, sub(n, 1), s='R'))


def fbin_post(q):
    c, b = sk(), sk()
    d = and_(rng(c, 0, v('ncls')), rng(b, 0, NB))
    yield ('bandpower is the interpolated spectrum at the band centre', eq(q.at(d).rd('cls_out[]', c, b), flat_binned('cls_in', c, b)), d)


def _fbin():
    from .kfun import KC
    SPECS.append(Spec('nmt_bin_cls_flat', lens={**flat_lens(), 'larr': v('nl'), 'cls_in': v('ncls'), 'cls_out': v('ncls'),
        'cls_in[]': lambda c: v('nl'), 'cls_out[]': lambda c: NB}, pre=lambda e: [ge(NB, 1), ge(v('nl'), 1), ge(v('ncls'), 0)],
        contracts=KC, post=fbin_post))


_fbin()
