from .common import *
from ..libc import gsl_size, PI

SPECS = []


def wbin_lens(b='w.bin'):
    return bin_lens(b)


NB = A('w.bin.n_bands')
LM = A('w.lmax')
NELL = lambda b: A('w.bin.nell_list', b)
ELL = lambda b, i: A('w.bin.ell_list[]', b, i)
W = lambda b, i: A('w.bin.w_list[]', b, i, s='R')
F = lambda b, i: A('w.bin.f_ell[]', b, i, s='R')
U = lambda r, c: A('w.coupling_matrix_unbinned[]', r, c, s='R')
BP = lambda l: A('w.beam_prod', l, s='R')
NC = A('w.ncls')


def w_lens(nc):
    n = num(nc)
    return {'w': 1, **bin_lens('w.bin'), 'w.beam_prod': add(A('w.lmax_fields'), 1), 'w.pcl_masks': add(A('w.lmax_mask'), 1),
            'w.coupling_matrix_unbinned': mul(n, add(LM, 1)), 'w.coupling_matrix_unbinned[]': lambda r: mul(n, add(LM, 1))}


def w_pre(nc):
    n = num(nc)
    return lambda e: [ge(NB, 1), ge(LM, 0), le(LM, A('w.lmax_fields')), eq(A('w.bin.ell_max'), LM),
                      eq(A('w.coupling_matrix_binned.size1'), mul(n, NB)), eq(A('w.coupling_matrix_binned.size2'), mul(n, NB)),
                      eq(A('w.coupling_matrix_perm.size', 0), mul(n, NB))]


def w_facts(e):
    return bin_inv('w.bin', LM)


def binned(n, a, b2, c, b3):
    """definition of the binned coupling matrix"""
    i, j = fresh('i'), fresh('j')
    return sum_(i, 0, NELL(b2), sum_(j, 0, NELL(b3), mul(U(add(mul(n, ELL(b2, i)), a), add(mul(n, ELL(b3, j)), c)), BP(ELL(b3, j)),
                                                         W(b2, i), F(b2, i), rdiv(1, F(b3, j)))))


def bcm_post(nc):
    n = I(nc)

    def post(q):
        b2, b3 = sk(), sk()
        d = and_(rng(b2, 0, NB), rng(b3, 0, NB))
        q1 = q.at(d)
        for a in range(nc):
            for c in range(nc):
                got = lu_of(q1, 'w.coupling_matrix_binned', add(mul(n, b2), a), add(mul(n, b3), c))
                yield ('binned matrix element (%d,%d)' % (a, c), eq(got, ite(eq(A('w.norm_type'), 0), binned(n, a, b2, c, b3),
                       ite(eq(b2, b3), A('w.w2', s='R'), 0) if a == c else 0)), d)
    return post


def lu_of(q, name, i, j):
    c = q.st.mem.get((name, '$lu'))
    if c is None:
        raise Unsupported('matrix %s is not factorised' % name)
    return q.eng.eval_content(q.st, c, (num(i), num(j)))


NCLS = (1, 2, 4, 7)
for nc in NCLS:
    SPECS.append(Spec('bin_coupling_matrix', name='bin_coupling_matrix[ncls=%d]' % nc, lens=w_lens(nc), pre=w_pre(nc), facts=w_facts,
                      opts={'fixed': {'w.ncls': nc}, 'unroll': 0 if nc > 1 else 9}, post=bcm_post(nc)))


def couple_post(nc):
    n = I(nc)

    def post(q):
        l, l2 = sk(), fresh('l')
        d = rng(l, 0, add(LM, 1))
        q1 = q.at(d)
        for a in range(nc):
            want = sum_(l2, 0, add(LM, 1), add(ZERO, *[mul(U(add(mul(n, l), a), add(mul(n, l2), c)), BP(l2), A('cl_in[]', c, l2, s='R')) for c in range(nc)]))
            yield ('coupled spectrum %d' % a, eq(q1.rd('cl_out[]', a, l), want), d)
    return post


def decouple_post(nc):
    n = I(nc)

    def post(q):
        b, k, i = sk(), fresh('k'), fresh('i')
        d = rng(b, 0, NB)
        q1 = q.at(d)
        for a in range(nc):
            def rhs(c, bb):
                x = sub(sub(A('cl_in[]', c, ELL(bb, i), s='R'), A('cl_noise_in[]', c, ELL(bb, i), s='R')), A('cl_bias[]', c, ELL(bb, i), s='R'))
                return sum_(i, 0, NELL(bb), mul(x, F(bb, i), W(bb, i)))
            want = sum_(k, 0, mul(n, NB), mul(A('luinv:w.coupling_matrix_binned', add(mul(n, b), a), k, s='R'),
                        pick(k, n, nc, rhs)))
            yield ('decoupled spectrum %d' % a, eq(q1.rd('cl_out[]', a, b), want), d)
    return post


def pick(k, n, nc, f):
    r = None
    for c in reversed(range(nc)):
        x = f(c, idiv(k, n))
        r = x if r is None else ite(eq(imod(k, n), I(c)), x, r)
    return r


for nc in NCLS:
    cl = lambda nm, ln: {nm: I(nc), nm + '[]': lambda c: ln}
    SPECS.append(Spec('nmt_couple_cl_l', name='nmt_couple_cl_l[ncls=%d]' % nc, lens={**w_lens(nc), **cl('cl_in', add(LM, 1)), **cl('cl_out', add(LM, 1))},
                      pre=w_pre(nc), facts=w_facts, opts={'fixed': {'w.ncls': nc}, 'unroll': 0 if nc > 1 else 9}, post=couple_post(nc)))
    SPECS.append(Spec('nmt_decouple_cl_l', name='nmt_decouple_cl_l[ncls=%d]' % nc,
                      lens={**w_lens(nc), **cl('cl_in', add(LM, 1)), **cl('cl_noise_in', add(LM, 1)), **cl('cl_bias', add(LM, 1)), **cl('cl_out', NB)},
                      pre=w_pre(nc), facts=w_facts, opts={'fixed': {'w.ncls': nc}, 'unroll': 0 if nc > 1 else 9}, post=decouple_post(nc)))


def win_post(nc):
    n = I(nc)

    def post(q):
        b, l, k, i = sk(), sk(), fresh('k'), fresh('i')
        d = and_(rng(b, 0, NB), rng(l, 0, add(LM, 1)))
        q1 = q.at(d)
        for a in range(nc):
            for c in range(nc):
                col = add(mul(n, l), c)
                row = lambda c1, bb: sum_(i, 0, NELL(bb), mul(F(bb, i), W(bb, i), U(add(mul(n, ELL(bb, i)), c1), col), BP(l)))
                want = sum_(k, 0, mul(n, NB), mul(A('luinv:w.coupling_matrix_binned', add(mul(n, b), a), k, s='R'), row(imod(k, n), idiv(k, n))))
                got = q1.rd('bpw_win_out', add(mul(add(mul(n, b), a), n, add(LM, 1)), col))
                yield ('window (%d,%d)' % (a, c), eq(got, want), d)
    return post


for nc in NCLS:
    SPECS.append(Spec('nmt_compute_bandpower_windows', name='nmt_compute_bandpower_windows[ncls=%d]' % nc,
                      lens={**w_lens(nc), 'bpw_win_out': mul(nc, NB, nc, add(LM, 1))},
                      pre=w_pre(nc), facts=w_facts, opts={'fixed': {'w.ncls': nc}, 'unroll': 0 if nc > 1 else 9}, post=win_post(nc)))


# ---- updates: the binned matrix is recomputed from the current beams, bins and matrix
def upd_post(nc, what):
    n = I(nc)

    def post(q):
        b2, b3 = sk(), sk()
        pf = 'bin' if what == 'bins' else 'w.bin'
        nb, nl = A(pf + '.n_bands'), lambda b: A(pf + '.nell_list', b)
        el = lambda b, i: A(pf + '.ell_list[]', b, i)
        w_, f_ = lambda b, i: A(pf + '.w_list[]', b, i, s='R'), lambda b, i: A(pf + '.f_ell[]', b, i, s='R')
        u = (lambda r, c: A('new_matrix', add(mul(r, n, add(LM, 1)), c), s='R')) if what == 'matrix' else U
        bp = (lambda l: mul(A('b1', l, s='R'), A('b2', l, s='R'))) if what == 'beams' else BP
        d = and_(rng(b2, 0, nb), rng(b3, 0, nb))
        q1 = q.at(d)
        wp = q.eng.av_w
        for a in range(nc):
            for c in range(nc):
                i, j = fresh('i'), fresh('j')
                want = sum_(i, 0, nl(b2), sum_(j, 0, nl(b3), mul(u(add(mul(n, el(b2, i)), a), add(mul(n, el(b3, j)), c)), bp(el(b3, j)),
                                                                 w_(b2, i), f_(b2, i), rdiv(1, f_(b3, j)))))
                m = q1.fld(wp, 'coupling_matrix_binned', 'gsl_matrix *')
                got = q1.eng.eval_content(q1.st, q1.st.mem[(m.obj.name, '$lu')], m.idx + (add(mul(n, b2), a), add(mul(n, b3), c)))
                yield ('binned matrix element (%d,%d)' % (a, c), eq(got, ite(eq(A('w.norm_type'), 0), want, ite(eq(b2, b3), A('w.w2', s='R'), 0) if a == c else 0)), d)
        if what == 'matrix':
            r, c = sk(), sk()
            d = and_(rng(r, 0, mul(n, add(LM, 1))), rng(c, 0, mul(n, add(LM, 1))))
            yield ('unbinned matrix replaced', eq(q.at(d).rd('w.coupling_matrix_unbinned[]', r, c), u(r, c)), d)
        if what == 'beams':
            l = sk()
            d = rng(l, 0, add(A('w.lmax_fields'), 1))
            yield ('beams replaced', eq(q.at(d).rd('w.beam_prod', l), bp(l)), d)
        if what == 'bins':
            yield ('bands replaced', eq(q.fld(q.fld(wp, 'bin', 'nmt_binning_scheme *'), 'n_bands'), nb))
            yield ('lmax kept', eq(q.fld(q.fld(wp, 'bin', 'nmt_binning_scheme *'), 'ell_max'), LM))
    return post


def unchanged_on_error(names):
    """failed updates leave the workspace as it was"""
    def f(e, x):
        ok = TRUE
        for (o, fl), c in x.st.mem.items():
            if o.startswith('w') and (o == 'w' or o.startswith('w.')) and c.ups:
                ok = FALSE_Q
        return ok
    return f


def keep_w(nm='w'):
    def f(e, st):
        p = Ptr(e.param_obj(nm, 0, 'nmt_workspace'))
        e.av_w = p
        return p
    return f


for nc in NCLS:
    o = {'fixed': {'w.ncls': nc}, 'unroll': 0 if nc > 1 else 9}
    N1 = mul(nc, add(LM, 1))
    SPECS.append(Spec('nmt_update_coupling_matrix', name='nmt_update_coupling_matrix[ncls=%d]' % nc,
                      lens={**w_lens(nc), 'new_matrix': mul(v('n_rows'), v('n_rows'))}, args={'w': keep_w()},
                      pre=w_pre(nc), facts=w_facts, opts=o, post=upd_post(nc, 'matrix'),
                      error_ok=lambda e, x, N1=N1: and_(ne(v('n_rows'), N1), unchanged_on_error(0)(e, x))))
    SPECS.append(Spec('nmt_workspace_update_beams', name='nmt_workspace_update_beams[ncls=%d]' % nc,
                      lens={**w_lens(nc), 'b1': v('nl1'), 'b2': v('nl2')}, args={'w': keep_w()},
                      pre=w_pre(nc), facts=w_facts, opts=o, post=upd_post(nc, 'beams'),
                      error_ok=lambda e, x: and_(or_(le(v('nl1'), A('w.lmax_fields')), le(v('nl2'), A('w.lmax_fields'))), unchanged_on_error(0)(e, x))))
    SPECS.append(Spec('nmt_workspace_update_binning', name='nmt_workspace_update_binning[ncls=%d]' % nc,
                      lens={**w_lens(nc), **bin_lens('bin')}, args={'w': keep_w()},
                      pre=lambda e, nc=nc: w_pre(nc)(e) + [ge(A('bin.n_bands'), 1)], facts=lambda e: w_facts(e) + bin_inv('bin'), opts=o, post=upd_post(nc, 'bins'),
                      error_ok=lambda e, x: and_(ne(A('bin.ell_max'), LM), unchanged_on_error(0)(e, x))))
