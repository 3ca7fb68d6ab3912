from ..spec import *
from ..terms import *
from ..prover import Fact, ext
from ..engine import *
from ..engine import FALSE_Q


def fa(vs, trig, body, name=''):
    """forall fact with a trigger"""
    return Fact(tuple(vs), trig, body, name)


def A(name, *idx, s='I'):
    return app(name, tuple(num(i) for i in idx), s)


def sk(n='s', s='I'):
    return fresh(n, s)


# ---- binning scheme invariant (struct nmt_binning_scheme)
def bin_lens(b='bin'):
    nb = A(b + '.n_bands')
    row = lambda ib: A(b + '.nell_list', ib)
    return {b: 1, b + '.nell_list': nb, b + '.ell_list': nb, b + '.w_list': nb, b + '.f_ell': nb,
            b + '.ell_list[]': row, b + '.w_list[]': row, b + '.f_ell[]': row}


def bin_inv(b='bin', lmax=None):
    """data-structure invariant of a binning scheme"""
    i, j = fresh('b'), fresh('l')
    nb = A(b + '.n_bands')
    lm = lmax if lmax is not None else A(b + '.ell_max')
    return [
        fa((i,), A(b + '.nell_list', i), implies(rng(i, 0, nb), le(0, A(b + '.nell_list', i))), 'nell>=0'),
        fa((i, j), A(b + '.ell_list[]', i, j),
           implies(and_(rng(i, 0, nb), rng(j, 0, A(b + '.nell_list', i))),
                   and_(le(0, A(b + '.ell_list[]', i, j)), le(A(b + '.ell_list[]', i, j), lm))), 'ells in range'),
        fa((i, j), A(b + '.f_ell[]', i, j, s='R'),
           implies(and_(rng(i, 0, nb), rng(j, 0, A(b + '.nell_list', i))), gt(A(b + '.f_ell[]', i, j, s='R'), 0)), 'f_ell>0'),
    ]
