"""Flat-sky coupling matrices and power spectra (nmt_master_flat.c)."""
from .master import lu_of, pick
from .covar_flat import *
from .covar_flat import c_map2alm, c_search_copy, FTof, FTV
from .fsky import kcomp, kmod, half, cis_pow
from .kfun import KC
from ..libc import PI, sqrt_, ev, pair_tag

SPECS = []
WB = A('w.bin.n_bands')
NELLF = A('w.fs.n_ell')
WX, WY, WLX, WLY = A('w.fs.nx'), A('w.fs.ny'), A('w.fs.lx', s='R'), A('w.fs.ly', s='R')
NCLS = (1, 2, 4, 7)


# ---------------------------------------------------------------- decoupling
def dec_post(nc):
    n = I(nc)

    def post(q):
        b, k = sk(), fresh('k')
        d = rng(b, 0, WB)
        q1 = q.at(d)
        rhs = lambda c, bb: sub(sub(A('cl_in[]', c, bb, s='R'), A('cl_noise_in[]', c, bb, s='R')), A('cl_bias[]', c, bb, s='R'))
        for a in range(nc):
            want = sum_(k, 0, mul(n, WB), mul(A('luinv:w.coupling_matrix_binned_gsl', add(mul(n, b), a), k, s='R'), pick(k, n, nc, rhs)))
            yield ('decoupled spectrum %d' % a, eq(q1.rd('cl_out[]', a, b), want), d)
    return post


def wf_lens(nc):
    n = num(nc)
    return {'w': 1, 'w.fs': 1, **flat_lens('w.bin'), 'w.n_cells': WB, 'w.coupling_matrix_unbinned': mul(n, WB), 'w.coupling_matrix_unbinned[]': lambda r: mul(n, NELLF),
            'w.coupling_matrix_binned': mul(n, WB), 'w.coupling_matrix_binned[]': lambda r: mul(n, WB)}


def wf_pre(nc):
    n = num(nc)
    return [ge(WB, 1), ge(NELLF, 0), ge(WX, 1), ge(WY, 1), gt(WLX, 0), gt(WLY, 0), eq(A('w.coupling_matrix_binned_gsl.size1'), mul(n, WB)),
            eq(A('w.coupling_matrix_binned_gsl.size2'), mul(n, WB)), eq(A('w.coupling_matrix_perm.size', 0), mul(n, WB))]


for nc in NCLS:
    o = {'fixed': {'w.ncls': nc}, 'unroll': 0 if nc > 1 else 9}
    rows = {k + '[]': lambda c: WB for k in ('cl_in', 'cl_noise_in', 'cl_bias', 'cl_out')}
    SPECS.append(Spec('nmt_decouple_cl_l_flat', name='nmt_decouple_cl_l_flat[ncls=%d]' % nc, lens={**wf_lens(nc), 'cl_in': nc, 'cl_noise_in': nc, 'cl_bias': nc, 'cl_out': nc, **rows},
                      pre=lambda e, nc=nc: wf_pre(nc), opts=o, post=dec_post(nc)))


# ---------------------------------------------------------------- spectra of fields
def c_alm2cl(eng, st, args, e):
    """contract of fs_alm2cl (proved for C15): every argument is what the caller is documented to hand over"""
    fs, bin, a1, a2, s1, s2, cls, *cuts = ev(eng, st, args)
    nm = lambda p: eng.simp_ptr(st, p).obj.name
    ob = lambda g, n: eng.oblige(st, TRUE if g is True else FALSE_Q if g is False else g, n, 'post', e.line)
    ob(nm(fs) in ('fl1.fs', 'fl2.fs'), 'patch of the fields')
    ob(nm(bin) == 'bin', 'requested bandpowers')
    ob(nm(a1) == 'fl1.alms' and nm(a2) == 'fl2.alms', 'modes of the first and second field')
    ob(and_(eq(s1, A('fl1.spin')), eq(s2, A('fl2.spin'))), 'spins of the first and second field')
    ob(nm(cls) == 'cl_out', 'output spectra')
    ob(and_(*[eq(x, v(n, 'R')) for x, n in zip(cuts, ('lmn_x', 'lmx_x', 'lmn_y', 'lmx_y'))]), 'excluded ranges in the right order')
    eng.opts['$cut'] = True
    return UNDEF


def cc_err(e, x):
    return or_(ne(A('fl1.mask_only'), 0), ne(A('fl2.mask_only'), 0), *[ne(A('fl1.fs.' + g, s=s), A('fl2.fs.' + g, s=s)) for g, s in (('nx', 'I'), ('ny', 'I'), ('lx', 'R'), ('ly', 'R'))])


def cc_post(q):
    yield ('spectra computed', TRUE if q.eng.opts.get('$cut') else FALSE_Q)
    yield ('only for fields with maps on the same pixels', not_(cc_err(None, None)))


FL2 = {f: 1 for f in ('fl1', 'fl2', 'fl1.fs', 'fl2.fs')}
SPECS.append(Spec('nmt_compute_coupled_cell_flat', lens={**FL2, 'bin': 1}, contracts={'fs_alm2cl': c_alm2cl}, post=cc_post, error_ok=cc_err))


# ---------------------------------------------------------------- patch
def fsi_post(q):
    r = q.ret
    nx, ny, lx, ly = v('nx'), v('ny'), v('lx', 'R'), v('ly', 'R')
    f = lambda n, ty='int': q.fld(r, n, ty)
    yield ('shape', and_(eq(f('nx'), nx), eq(f('ny'), ny), eq(f('npix', 'long'), mul(nx, ny))))
    yield ('size', and_(eq(f('lx', 'double'), lx), eq(f('ly', 'double'), ly), eq(f('pixsize', 'double'), rdiv(mul(lx, ly), mul(nx, ny)))))
    dx, dy = rdiv(mul(2, PI), lx), rdiv(mul(2, PI), ly)
    dk = ite(lt(dx, dy), dx, dy)
    yield ('ring width is the finest wave number', eq(f('dell', 'double'), dk))
    yield ('inverse ring width', eq(mul(f('i_dell', 'double'), f('dell', 'double')), 1))
    n = f('n_ell')
    kx, ky = mul(dx, idiv(nx, 2)), mul(dy, idiv(ny, 2))
    kmax = sqrt_(add(mul(ky, ky), mul(kx, kx)))
    yield ('rings stay below the largest wave number', and_(ge(n, 0), implies(ge(n, 1), le(mul(n, dk), kmax))))
    yield ('no further ring fits', gt(mul(add(n, 1), dk), kmax))
    i = sk()
    d = rng(i, 0, n)
    yield ('lower edge of each ring', eq(q.at(d).idx(f('ell_min', 'double *'), i), mul(i, dk)), d)


SPECS.append(Spec('nmt_flatsky_info_alloc', pre=lambda e: [ge(v('nx'), 1), ge(v('ny'), 1), gt(v('lx', 'R'), 0), gt(v('ly', 'R'), 0)], post=fsi_post))


# ---------------------------------------------------------------- coupling of theory spectra
from .kfun import kspl

NL = v('nl')
cl_at = lambda c, x: kspl('larr', 'cl_in[]', (), (c,), NL, x, A('cl_in[]', c, 0, s='R'), 0, A('larr', 0, s='R'), A('larr', sub(NL, 1), s='R'))
wk = lambda ix, iy: kmod(kcomp(ix, WX, WLX), kcomp(iy, WY, WLY))


def wsum(f):
    ix, iy = fresh('ix'), fresh('iy')
    return sum_(iy, 0, WY, sum_(ix, 0, WX, f(ix, iy)))


def cfast_post(nc):
    n = I(nc)
    ring = lambda ix, iy: trunc(mul(wk(ix, iy), A('w.fs.i_dell', s='R')))

    def post(q):
        b, m = sk(), fresh('m')
        d = rng(b, 0, WB)
        q1 = q.at(d)

        def avg(c, r):
            inr = lambda x, y: and_(lt(ring(x, y), NELLF), eq(ring(x, y), r))
            N = wsum(lambda x, y: iv(inr(x, y)))
            S = wsum(lambda x, y: ite(inr(x, y), cl_at(c, wk(x, y)), 0))
            return ite(gt(N, 0), rdiv(S, N), S)     # a ring without modes: the empty sum
        for a in range(nc):
            want = sum_(m, 0, mul(n, NELLF), mul(A('w.coupling_matrix_unbinned[]', add(mul(n, b), a), m, s='R'), pick(m, n, nc, avg)))
            yield ('coupled spectrum %d is the matrix times the ring averages' % a, eq(q1.rd('cl_out[]', a, b), want), d)
    return post


CR = {'larr': NL, **{k + '[]': (lambda c: NL) if k == 'cl_in' else (lambda c: WB) for k in ('cl_in', 'cl_out')}}
for nc in NCLS:
    o = {'fixed': {'w.ncls': nc}, 'unroll': 0 if nc > 1 else 9}
    SPECS.append(Spec('nmt_couple_cl_l_flat_fast', name='nmt_couple_cl_l_flat_fast[ncls=%d]' % nc, slow=nc == 7, lens={**wf_lens(nc), 'cl_in': nc, 'cl_out': nc, **CR},
                      pre=lambda e, nc=nc: wf_pre(nc) + [ge(NL, 1), gt(A('w.fs.i_dell', s='R'), 0)], opts=o, contracts=KC, post=cfast_post(nc)))


def cquick_post(nc):
    n = I(nc)
    kx, ky = lambda x: kcomp(x, WX, WLX), lambda y: kcomp(y, WY, WLY)
    cut = lambda k, ax: and_(ge(k, A('w.ellcut_%s#0' % ax, s='R')), le(k, A('w.ellcut_%s#1' % ax, s='R')))

    def post(q):
        b, b2 = sk(), fresh('b')
        d = rng(b, 0, WB)
        q1 = q.at(d)

        def avg(c, j):
            S = wsum(lambda x, y: ite(and_(not_(cut(ky(y), 'y')), not_(cut(kx(x), 'x')), eq(bandof(wk(x, y), 'w.bin'), j)), cl_at(c, wk(x, y)), 0))
            return ite(gt(A('w.n_cells', j), 0), rdiv(S, A('w.n_cells', j)), 0)
        for a in range(nc):
            want = add(ZERO, *[sum_(b2, 0, WB, mul(A('w.coupling_matrix_binned[]', add(mul(n, b), a), add(mul(n, b2), c), s='R'), avg(c, b2))) for c in range(nc)])
            yield ('coupled spectrum %d is the binned matrix times the band averages' % a, eq(q1.rd('cl_out[]', a, b), want), d)
    return post


for nc in NCLS:
    o = {'fixed': {'w.ncls': nc}, 'unroll': 9, 'inv': [lambda x: lt(x, WB)]}
    SPECS.append(Spec('nmt_couple_cl_l_flat_quick', name='nmt_couple_cl_l_flat_quick[ncls=%d]' % nc, lens={**wf_lens(nc), 'cl_in': nc, 'cl_out': nc, **CR},
                      pre=lambda e, nc=nc: wf_pre(nc) + [ge(NL, 1)], opts=o, facts=lambda e: sorted_bands('w.bin') + bandof_def('w.bin'),
                      contracts={**KC, 'nmt_bins_flat_search_fast': c_search_copy('w.bin')}, post=cquick_post(nc)))


# ---------------------------------------------------------------- coupling matrix

FX, FY, FLX, FLY = A('fl1.fs.nx'), A('fl1.fs.ny'), A('fl1.fs.lx', s='R'), A('fl1.fs.ly', s='R')
NBI = A('bin.n_bands')


def mcm_entry(nc, pure, C, S, kr):
    """(a, c) -> factor by which true component c enters measured component a: products of one rotation (or purification ratio) per spin field"""
    def rot(pe, pb, c, s):
        return [[kr if pe else c, ZERO if pe else neg(s)], [ZERO if pb else s, kr if pb else c]]
    one = [[ONE]]
    if nc == 1:
        return lambda a, c: ONE
    (pe1, pb1), (pe2, pb2) = pure
    if nc == 2:
        R = rot(pe1 or pe2, pb1 or pb2, C[0], S[0])
        return lambda a, c: R[a][c]
    R1, R2 = rot(pe1, pb1, C[0], S[0]), rot(pe2, pb2, C[1], S[1])
    if nc == 4:
        return lambda a, c: mul(R1[a // 2][c // 2], R2[a % 2][c % 2])
    R = rot(pe2, pb2, C[0], S[0])

    def f(a, c):
        if a == 0 or c == 0:
            return ONE if a == c else ZERO
        if a < 3 or c < 3:
            return R[a - 1][c - 1] if a < 3 and c < 3 else ZERO
        return mul(R[(a - 3) // 2][(c - 3) // 2], R[(a - 3) % 2][(c - 3) % 2])
    return f


def mcm_post(nc, pure, spins, same, ents=None):
    f2 = 'fl1' if same else 'fl2'

    def post(q):
        r = q.ret
        i, j = sk(), sk()
        fs = q.fld(r, 'fs', 'nmt_flatsky_info *')
        nell, idell = q.fld(fs, 'n_ell'), q.fld(fs, 'i_dell', 'double')
        b = q.fld(r, 'bin', 'nmt_binning_scheme_flat *')
        yield ('number of bands', eq(q.fld(b, 'n_bands'), NBI))
        yield ('number of spectra', eq(q.fld(r, 'ncls'), nc))
        for n in ('ell_0_list', 'ell_f_list'):
            q0 = q.at(rng(i, 0, NBI))
            yield ('band edges kept (%s)' % n, eq(q0.idx(q0.fld(b, n, 'double *'), i), A('bin.' + n, i, s='R')), rng(i, 0, NBI))
        X1, Y1, X2, Y2 = fresh('ix'), fresh('iy'), fresh('jx'), fresh('jy')
        kx, ky = lambda x: kcomp(x, FX, FLX), lambda y: kcomp(y, FY, FLY)
        km = lambda x, y: kmod(kx(x), ky(y))
        bo = lambda x, y: bandof(km(x, y), 'bin')
        cut = lambda k, ax: and_(ge(k, v('lmn_' + ax, 'R')), le(k, v('lmx_' + ax, 'R')))
        gone = lambda x, y: or_(cut(ky(y), 'y'), cut(kx(x), 'x'))
        ib = lambda x, y: ite(gone(x, y), -1, ite(ge(bo(x, y), 0), bo(x, y), -1))
        ring = lambda x, y: trunc(mul(km(x, y), idell))
        ir = lambda x, y: ite(or_(lt(ring(x, y), 0), ge(ring(x, y), nell)), -1, ring(x, y))
        N = lambda bb: sum_(Y1, 0, FY, sum_(X1, 0, FX, iv(and_(not_(gone(X1, Y1)), ge(bo(X1, Y1), 0), eq(bo(X1, Y1), bb)))))
        S4 = lambda f: sum_(Y1, 0, FY, sum_(X1, 0, FX, sum_(Y2, 0, FY, sum_(X2, 0, FX, f))))
        w = lambda a, n: ite(lt(a, 0), add(a, n), a)
        dx, dy = w(sub(X1, X2), FX), w(sub(Y1, Y2), FY)
        hf = le(mul(2, dx), FX)
        k = add(ite(hf, dx, sub(FX, dx)), mul(add(idiv(FX, 2), 1), ite(hf, dy, imod(sub(FY, dy), FY))))
        m1, m2 = FTof(A('fl1.mask', FTV, s='R'), k), FTof(A(f2 + '.mask', FTV, s='R'), k)
        cross = add(mul(m1[0], m2[0]), mul(m1[1], m2[1]))
        beam = lambda f: app('kfun:%s.beam' % f, (km(X2, Y2),), 'R')
        mp = mul(cross, beam('fl1'), beam(f2))

        def ang(x, y, s):
            kk = km(x, y)
            return cis_pow(ite(gt(kk, 0), rdiv(kx(x), kk), 1), ite(gt(kk, 0), rdiv(ky(y), kk), 0), s)
        C, S = [], []
        for s in spins:
            (c1, s1), (c2, s2) = ang(X1, Y1, s), ang(X2, Y2, s)
            C.append(add(mul(c1, c2), mul(s1, s2)))
            S.append(sub(mul(s1, c2), mul(c1, s2)))
        z1, z2 = eq(add(X1, mul(FX, Y1)), 0), eq(add(X2, mul(FX, Y2)), 0)
        kr = ite(and_(z1, z2), 1, mul(km(X2, Y2), ite(gt(add(X1, mul(FX, Y1)), 0), rdiv(1, km(X1, Y1)), 0)))
        ent = mcm_entry(nc, pure, C, S, mul(kr, kr))
        norm = ite(gt(N(i), 0), rdiv(mul(4, PI, PI), mul(FLX, FLX, FLY, FLY, N(i))), 0)
        qb = q.at(and_(rng(i, 0, NBI), rng(j, 0, NBI)))
        g = qb.eng.simp_ptr(qb.st, qb.fld(r, 'coupling_matrix_binned_gsl', 'gsl_matrix *'))
        pm = qb.eng.simp_ptr(qb.st, qb.fld(r, 'coupling_matrix_perm', 'gsl_permutation *'))
        yield ('factorised matrix and permutation belong together', TRUE if pair_tag(q.eng, g) == pair_tag(q.eng, pm) else FALSE_Q)
        Mb = qb.fld(r, 'coupling_matrix_binned', 'flouble **')
        for a in range(nc):
            for c in range(nc):
                if ents is None or (a, c) in ents:
                    x, y = add(mul(nc, i), a), add(mul(nc, j), c)
                    yield ('factorised element [%d,%d] is that of the binned matrix' % (a, c), eq(lu_of(qb, g.obj.name, x, y), qb.idx(qb.idx(Mb, x, 'flouble *'), y)), and_(rng(i, 0, NBI), rng(j, 0, NBI)))
        for kind, lim, col in (('binned', NBI, bo), ('unbinned', nell, ir)):
            d = and_(rng(i, 0, NBI), rng(j, 0, lim))
            q1 = q.at(d)
            M = q1.fld(r, 'coupling_matrix_' + kind, 'flouble **')
            on = and_(ge(ib(X1, Y1), 0), ge(col(X2, Y2), 0), eq(ib(X1, Y1), i), eq(col(X2, Y2), j))
            for a in range(nc):
                for c in range(nc):
                    if ents is not None and (a, c) not in ents:
                        continue
                    e = ent(a, c)
                    want = mul(norm, S4(ite(on, mul(mp, e), 0))) if const_val(e) != 0 else ZERO
                    got = q1.idx(q1.idx(M, add(mul(nc, i), a), 'flouble *'), add(mul(nc, j), c))
                    yield ('%s[%d,%d] is the normalised mode-pair sum' % (kind, a, c), eq(got, want), d)
    return post


def mcm_pre(same, sp):
    def f(e):
        r = [ge(NBI, 1)]
        for fl in ('fl1',) if same else ('fl1', 'fl2'):
            o = fl + '.fs.'
            r += [ge(A(o + 'nx'), 1), ge(A(o + 'ny'), 1), eq(A(o + 'npix'), mul(A(o + 'nx'), A(o + 'ny'))), gt(A(o + 'lx', s='R'), 0), gt(A(o + 'ly', s='R'), 0)]
        for fl, s in zip(('fl1', 'fl2'), sp):
            if s and not (same and fl == 'fl2'):
                r.append(ge(A(fl + '.spin'), 1))
        return r
    return f


def mcm_err(same, sp, teb):
    def f(e, x):
        res = [] if same else [ne(A('fl2.fs.' + g, s=so), A('fl1.fs.' + g, s=so)) for g, so in (('nx', 'I'), ('ny', 'I'), ('lx', 'R'), ('ly', 'R'))]
        if teb and not (sp[0] == 0 and sp[1]):
            res.append(TRUE)
        return or_(*res)
    return f


def mcm_spec(sp, pure=((0, 0), (0, 0)), teb=0, same=False, slow=False, cost=20, ents=None, tag=''):
    n = [2 if s else 1 for s in sp]
    nc = 7 if teb else n[0] * n[1]
    f2 = 'fl1' if same else 'fl2'
    s1, s2 = A('fl1.spin'), A(f2 + '.spin')
    spins = {1: (), 2: (s1 if sp[0] else s2,), 4: (s1, s2), 7: (s2, s2)}[nc]
    fx = {}
    for f, s, k, (pe, pb) in zip(('fl1', 'fl2'), sp, n, pure):
        if same and f == 'fl2':
            continue
        fx.update({f + '.nmaps': k, f + '.pure_e': pe, f + '.pure_b': pb})
        if not s:
            fx[f + '.spin'] = 0
    name = ''.join('s' if s else '0' for s in sp) + (',teb' if teb else '') + (',same' if same else '')
    if any(map(any, pure)):
        name += ',pure=' + '|'.join(('e' if e else '') + ('b' if b else '') for e, b in pure)
    name += tag
    fl = ('fl1',) if same else ('fl1', 'fl2')
    ar = {'is_teb': teb}
    if same:
        ar['fl2'] = lambda e, st: Ptr(e.param_obj('fl1', 0, 'nmt_field_flat'))
    return Spec('nmt_compute_coupling_matrix_flat', name='nmt_compute_coupling_matrix_flat[%s]' % name, args=ar,
                lens={**{f: 1 for f in fl}, **{f + '.fs': 1 for f in fl}, **{f + '.mask': A(f + '.fs.npix') for f in fl}, **flat_lens('bin')},
                pre=mcm_pre(same, sp), facts=lambda e: sorted_bands('bin') + bandof_def('bin'), error_ok=mcm_err(same, sp, teb),
                opts={'inv': [lambda x: lt(x, NBI)], 'fixed': fx, 'unroll': 9}, contracts={**KC, 'fs_map2alm': c_map2alm('fl1.fs'), 'nmt_bins_flat_search_fast': c_search_copy('bin')},
                post=mcm_post(nc, pure, spins, same, ents), timeout=20000, slow=slow, cost=cost)


N_, E_, B_, EB = (0, 0), (1, 0), (0, 1), (1, 1)
SPECS.append(mcm_spec((0, 0)))
SPECS.append(mcm_spec((0, 0), same=True))
SPECS.append(mcm_spec((0, 2)))
SPECS.append(mcm_spec((2, 0)))
SPECS += [mcm_spec((0, 2), (N_, x)) for x in (E_, B_, EB)] + [mcm_spec((2, 0), (x, N_)) for x in (E_, B_, EB)]
SPECS += [mcm_spec((2, 2), (x, y), slow=(x, y) not in ((N_, N_), (E_, B_), (B_, B_), (B_, N_), (EB, E_), (N_, EB)), cost=30) for x in (N_, E_, B_, EB) for y in (N_, E_, B_, EB)]
SPECS += [mcm_spec((2, 2), (x, x), slow=x is N_, same=True, cost=30) for x in (N_, B_)]
SPECS += [mcm_spec((0, 2), (N_, x), teb=1, slow=x in (E_, EB), cost=50) for x in (N_, E_, B_, EB)]
