"""Coupling coefficients (nmt_compute_master_coefficients, nmt_compute_coupling_matrix)."""
from .w3j import *

SPECS = []
LM, LK, NP = v('lmax'), v('lmax_mask'), v('npcl')
N1 = add(LM, 1)


def PCL(ic, l): return A('pcl_masks[]', ic, l, s='R')


def common_args(kind, pure):
    d = {'l_toeplitz': -1, 'l_exact': -1, 'dl_band': -1, 'do_teb': 1 if kind == 'teb' else 0}
    for f in ('pure_e1', 'pure_b1', 'pure_e2', 'pure_b2'):
        d[f] = 0 if not pure else v(f)
    if kind == '00':
        d['s1'] = d['s2'] = 0
    if kind in ('0s', 'teb'):
        d['s1'] = 0
    if kind == 's0':
        d['s2'] = 0
    return d


def mpre(kind, pure):
    def f(e):
        r = [ge(LM, 0), ge(LK, 0), ge(NP, 1)]
        if kind in ('0s', 'teb', 'ss', 's1s2'):
            r.append(ge(v('s2'), 1))
        if kind in ('s0', 'ss', 's1s2'):
            r.append(ge(v('s1'), 1))
        if kind == 'ss':
            r.append(eq(v('s1'), v('s2')))
        if kind == 's1s2':
            r.append(ne(v('s1'), v('s2')))
        if pure:
            r.append(or_(*[ne(v(x), 0) for x in ('pure_e1', 'pure_b1', 'pure_e2', 'pure_b2')]))
        return r
    return f


def sums(kind, pure):
    """name, index tuple and summand of every coefficient"""
    s = v('s1') if kind in ('s0', 'ss', 's1s2') else v('s2')
    s2 = v('s2') if kind == 's1s2' else s
    def w00(l, a, b): return W3J(l, a, b, 0, 0)
    def ws(l, a, b, s): return W3J(l, a, b, s, neg(s))

    def wp(l, a, b):
        """purified counterpart (a: multipole of the pure modes)"""
        f12 = mul(2, sqrt_(rdiv(mul(add(l, 1), l), mul(add(a, 2), sub(a, 1)))))
        f02 = sqrt_(rdiv(mul(add(l, 2), add(l, 1), l, sub(l, 1)), mul(add(a, 2), add(a, 1), a, sub(a, 1))))
        return add(ws(l, a, b, s), ite(gt(a, 1), add(ite(ge(l, 1), mul(f12, W3J(l, a, b, 1, -2)), 0), ite(ge(l, 2), mul(f02, W3J(l, a, b, 0, -2)), 0)), 0))
    out = []
    np_ = 2 if pure else 1
    if kind in ('00', 'teb'):
        out.append(('xi_00', None, lambda ic, l, a, b: mul(PCL(ic, l), w00(l, a, b), w00(l, a, b))))
    if kind in ('0s', 's0', 'teb'):
        for ip in range(2 if pure else 1):
            out.append(('xi_0s', ip, lambda ic, l, a, b, ip=ip: mul(PCL(ic, l), wp(l, a, b) if ip else ws(l, a, b, s), w00(l, a, b))))
    if kind in ('ss', 's1s2', 'teb'):
        for nm, par in (('xi_pp', 0), ('xi_mm', 1)):
            for ip in range(3 if pure else 1):
                x = lambda l, a, b, ip=ip: [mul(ws(l, a, b, s), ws(l, a, b, s2)), mul(wp(l, a, b), ws(l, a, b, s2)), mul(wp(l, a, b), wp(l, a, b))][ip]
                out.append((nm, ip, lambda ic, l, a, b, par=par, x=x: ite(eq(imod(add(l, a, b), I(2)), I(par)), mul(PCL(ic, l), x(l, a, b)), 0)))
    return out


def mpost(kind, pure):
    def post(q):
        a, b, ic = sk(), sk(), sk()
        d = and_(rng(a, 0, N1), rng(b, 0, N1), rng(ic, 0, NP))
        q1 = q.at(d)
        ls = ZERO if kind in ('00', 'teb') else maxI(v('s1') if kind not in ('0s',) else 0, v('s2') if kind != 's0' else 0)
        for nm, ip, f in sums(kind, pure):
            p = q1.fld(q1.ret, nm, 'flouble ***' if ip is None else 'flouble ****')
            p = q1.idx(p, ic, 'flouble **' if ip is None else 'flouble ***')
            if ip is not None:
                p = q1.idx(p, ip, 'flouble **')
            p = q1.idx(p, a, 'flouble *')
            got = q1.idx(p, b, 'double')
            def S(x, y):
                l = fresh('l')
                return sum_(l, absI(sub(x, y)), minI(add(x, y, 1), add(LK, 1)), f(ic, l, x, y))
            # without purification the coefficients are symmetric (so are the 3j symbols): the code evaluates one triangle
            want = S(a, b) if pure else ite(le(a, b), S(a, b), S(b, a))
            yield ('%s[%s] is the sum over the mask spectrum' % (nm, ip), eq(got, ite(and_(ge(a, ls), ge(b, ls)), want, 0)), d)
    return post


for pure in (False, True):
    for kind in ('00', '0s', 's0', 'ss', 's1s2', 'teb'):
        if pure and kind in ('00', 's1s2'):
            continue
        SPECS.append(Spec('nmt_compute_master_coefficients', name='nmt_compute_master_coefficients[%s%s]' % (kind, ',pure' if pure else ''),
                          lens={'pcl_masks': NP, 'pcl_masks[]': lambda c: add(LK, 1)}, args=common_args(kind, pure),
                          pre=mpre(kind, pure), contracts=W3JC, post=mpost(kind, pure)))


# ---------------------------------------------------------------- contract used by the callers
MCA = ('lmax', 'lmax_mask', 'npcl', 'pcl_masks', 's1', 's2', 'pure_e1', 'pure_b1', 'pure_e2', 'pure_b2', 'do_teb', 'l_toeplitz', 'l_exact', 'dl_band')


def XI(nm, tag, ic, ip, a, b):
    """coefficient nm[ic][ip][a][b] of the call with argument tuple tag (sums proved for nmt_compute_master_coefficients)"""
    return app('XI:' + nm, tuple(num(x) for x in tag) + (num(ic), num(ip), num(a), num(b)), 'R')


def xi_tag(x):
    """what the coefficients depend on besides the mask spectra"""
    pa = or_(*[ne(x[f], 0) for f in ('pure_e1', 'pure_b1', 'pure_e2', 'pure_b2')])
    return (x['lmax'], x['lmax_mask'], x['s1'], x['s2'], iv(pa), iv(ne(x['do_teb'], 0)), x['l_toeplitz'], x['l_exact'], x['dl_band'])


def c_master(pcl, npcl):
    """pcl(ic, l): what the caller must pass as mask spectra"""
    def f(eng, st, args, e):
        x = dict(zip(MCA, ev(eng, st, args)))
        x = {k: (num(y) if isinstance(y, T) else y) for k, y in x.items()}
        lm, lk = x['lmax'], x['lmax_mask']
        eng.oblige(st, and_(ge(lm, 0), ge(lk, 0), ge(x['npcl'], 1)), 'nmt_compute_master_coefficients: sizes', 'mem', e.line)
        eng.oblige(st, eq(x['npcl'], npcl), 'number of mask spectra passed', 'post', e.line)
        P = eng.simp_ptr(st, x['pcl_masks'])
        ic, l = fresh('ic'), fresh('l')
        s = st.copy()
        s.assume(and_(rng(ic, 0, x['npcl']), rng(l, 0, add(lk, 1))))
        row = eng.simp_ptr(s, eng.load(s, eng.padd(s, P, ic), 'flouble *', e.line))
        eng.check_range(s, row, add(lk, 1), e.line, 'mask spectrum')
        got = eng.load(s, eng.padd(s, row, l), 'double', e.line)
        eng.oblige(s, eq(got, pcl(ic, l)), 'mask spectra passed to nmt_compute_master_coefficients', 'post', e.line)
        nm = 'mc%d' % e.uid
        s1, s2 = x['s1'], x['s2']
        pa = xi_tag(x)[4]
        z1, z2 = eq(s1, 0), eq(s2, 0)
        dt = ne(x['do_teb'], 0)
        dec = lambda c: TRUE if eng.entails(st, c) else FALSE if eng.entails(st, not_(c)) else None
        h = {'00': dec(or_(dt, and_(z1, z2))), '0s': dec(or_(dt, and_(z1, not_(z2)), and_(z2, not_(z1)))), 'ss': dec(or_(dt, and_(not_(z1), not_(z2))))}
        if None in h.values():
            raise Unsupported('spin case not decided')
        fx = eng.opts.setdefault('fixed', {})
        N = add(lm, 1)
        fx.update({nm + '.lmax': lm, nm + '.lmax_mask': lk, nm + '.npcl': x['npcl'], nm + '.has_00': iv(h['00']), nm + '.has_0s': iv(h['0s']), nm + '.has_ss': iv(h['ss']),
                   nm + '.pure_any': pa, nm + '.npure_0s': add(1, pa), nm + '.npure_ss': add(1, mul(2, pa))})
        L = eng.lens
        L[nm] = 1
        null = set(eng.opts.get('null', ()))
        tag = xi_tag(x)
        L[nm + '.lfac'] = mul(4, add(maxI(lm, lk), 1))
        for f_, k, np_ in (('xi_00', '00', None), ('xi_0s', '0s', add(1, pa)), ('xi_pp', 'ss', add(1, mul(2, pa))), ('xi_mm', 'ss', add(1, mul(2, pa)))):
            fn = nm + '.' + f_
            if h[k] is not TRUE:
                null.add(fn)
                continue
            L[fn] = x['npcl']
            dims = [N, N] if np_ is None else [np_, N, N]
            for i, d in enumerate(dims):
                L[fn + '[]' * (i + 1)] = lambda *ix, d=d: d
            fx_ = fn + '[]' * len(dims)
            eng.opts.setdefault('valfn', {})[fx_] = (lambda loc, f_=f_: XI(f_, tag, loc[0], 0, loc[1], loc[2])) if np_ is None else \
                (lambda loc, f_=f_: XI(f_, tag, loc[0], loc[1], loc[2], loc[3]))
        eng.opts['null'] = null
        o = eng.param_obj(nm, 0, 'nmt_master_calculator')
        return Ptr(o)
    return f


def c_skip(*names):
    return {n: (lambda eng, st, args, e: UNDEF) for n in names}


# ---------------------------------------------------------------- nmt_compute_coupling_matrix
from ..libc import PI

LF, BM = v('lmax'), A('bin.ell_max')
PURE = ('pure_e1', 'pure_b1', 'pure_e2', 'pure_b2')


def ccm_tag(kind):
    x = {'lmax': BM, 'lmax_mask': v('lmax_mask'), 's1': 0 if kind in ('00', '0s', 'teb') else v('spin1'), 's2': 0 if kind in ('00', 's0') else v('spin2'),
         'do_teb': 1 if kind == 'teb' else 0, 'l_toeplitz': v('l_toeplitz'), 'l_exact': v('l_exact'), 'dl_band': v('dl_band')}
    x = {k: num(y) for k, y in x.items()}
    x.update(pflags(kind))
    return xi_tag(x)


def pflags(kind):
    z = {'00': PURE, '0s': PURE[:2], 'teb': PURE[:2], 's0': PURE[2:], 'ss': ()}[kind]
    return {f: ZERO if f in z else v(f) for f in PURE}


def wpcl(ic, l): return rdiv(mul(A('pcl_masks', l, s='R'), add(mul(2, l), 1)), mul(4, PI))


def ccm_elems(kind):
    """(row component, column component) -> sign, coefficient, purification index"""
    e1, b1, e2, b2 = [pflags(kind)[f] for f in PURE]
    if kind == '00':
        return 1, {(0, 0): (1, 'xi_00', 0)}
    if kind in ('0s', 's0'):
        return 2, {(0, 0): (1, 'xi_0s', add(e1, e2)), (1, 1): (1, 'xi_0s', add(b1, b2))}
    d = {(0, 0): (1, 'xi_pp', add(e1, e2)), (1, 1): (1, 'xi_pp', add(e1, b2)), (2, 2): (1, 'xi_pp', add(b1, e2)), (3, 3): (1, 'xi_pp', add(b1, b2)),
         (0, 3): (1, 'xi_mm', add(e1, e2)), (1, 2): (-1, 'xi_mm', add(e1, b2)), (2, 1): (-1, 'xi_mm', add(b1, e2)), (3, 0): (1, 'xi_mm', add(b1, b2))}
    if kind == 'ss':
        return 4, d
    d = {}
    d[0, 0] = (1, 'xi_00', 0)
    d[1, 1], d[2, 2] = (1, 'xi_0s', e2), (1, 'xi_0s', b2)
    for i, p in enumerate((e2, e2, b2, b2)):
        q = (e2, b2, e2, b2)[i]
        d[3 + i, 3 + i] = (1, 'xi_pp', add(p, q))
        d[3 + i, 6 - i] = (1 if i in (0, 3) else -1, 'xi_mm', add(p, q))
    return 7, d


def ccm_post(kind):
    n, el = ccm_elems(kind)

    def post(q):
        a, b = sk(), sk()
        d = and_(rng(a, 0, add(BM, 1)), rng(b, 0, add(BM, 1)))
        q1 = q.at(d)
        tag = ccm_tag(kind)
        U = q1.fld(q1.ret, 'coupling_matrix_unbinned', 'flouble **')
        s1 = 0 if kind in ('00', '0s', 'teb') else v('spin1')
        s2 = 0 if kind in ('00', 's0') else v('spin2')
        sg = ite(eq(imod(add(s1, s2), I(2)), 0), 1, -1)
        for r in range(n):
            row = q1.idx(U, add(mul(n, a), r), 'flouble *')
            for c in range(n):
                got = q1.idx(row, add(mul(n, b), c))
                if (r, c) in el:
                    s, nm, ip = el[r, c]
                    want = mul(s, sg, add(mul(2, b), 1), XI(nm, tag, 0, ip, a, b))
                else:
                    want = 0
                yield ('coupling of component %d into %d' % (c, r), eq(got, want), d)
        l = sk()
        d = rng(l, 0, add(LF, 1))
        q2 = q.at(d)
        yield ('beam product', eq(q2.idx(q2.fld(q2.ret, 'beam_prod', 'flouble *'), l), mul(A('beam1', l, s='R'), A('beam2', l, s='R'))), d)
        for f, x in (('lmax', BM), ('lmax_fields', LF), ('lmax_mask', v('lmax_mask')), ('ncls', n), ('norm_type', v('norm_type')), ('is_teb', 1 if kind == 'teb' else 0)):
            yield (f, eq(q.fld(q.ret, f), x))
        yield ('w2', eq(q.fld(q.ret, 'w2', 'double'), v('w2', 'R')))
    return post


for kind in ('00', '0s', 's0', 'ss', 'teb'):
    ar = {'is_teb': 1 if kind == 'teb' else 0}
    # only spin-2 fields are purified (enforced by the field constructors)
    if kind in ('00', '0s', 'teb'):
        ar['pure_e1'] = ar['pure_b1'] = 0
    if kind in ('00', 's0'):
        ar['pure_e2'] = ar['pure_b2'] = 0
    if kind in ('00', '0s', 'teb'):
        ar['spin1'] = 0
    if kind in ('00', 's0'):
        ar['spin2'] = 0
    SPECS.append(Spec('nmt_compute_coupling_matrix', name='nmt_compute_coupling_matrix[%s]' % kind, args=ar,
                      lens={**bin_lens('bin'), 'pcl_masks': add(v('lmax_mask'), 1), 'beam1': add(LF, 1), 'beam2': add(LF, 1)},
                      pre=lambda e, kind=kind: [ge(LF, 0), ge(v('lmax_mask'), 0), ge(A('bin.n_bands'), 1), ge(BM, 0)] + [rng(v(f), 0, 2) for f in PURE] +
                      ([ge(v('spin1'), 1)] if kind in ('s0', 'ss') else []) + ([ge(v('spin2'), 1)] if kind in ('0s', 'ss', 'teb') else []),
                      facts=lambda e: bin_inv('bin', BM), post=ccm_post(kind),
                      contracts={'nmt_compute_master_coefficients': c_master(wpcl, 1), **c_skip('bin_coupling_matrix')},
                      error_ok=lambda e, x: gt(BM, LF)))


# ---------------------------------------------------------------- anisotropic weights
# A weighted spin-s field couples (E,B) through three 2x2 operators per parity of l1+l2+l3:
# 0 (the scalar mask), e and b (the two anisotropic mask components).
OPP = {'0': ((1, 0), (0, 1)), 'e': ((-1, 0), (0, 1)), 'b': ((0, -1), (-1, 0))}     # even sum
OPM = {'0': ((0, 1), (-1, 0)), 'e': ((0, 1), (1, 0)), 'b': ((-1, 0), (0, 1))}      # odd sum


def aniso_post(kind, a1, a2):
    n = 4 if kind == 'ss' else 2

    def post(q):
        a, b = sk(), sk()
        d = and_(rng(a, 0, add(BM, 1)), rng(b, 0, add(BM, 1)))
        q1 = q.at(d)
        U = q1.fld(q1.ret, 'coupling_matrix_unbinned', 'flouble **')
        s1 = ZERO if kind == '0s' else v('spin1')
        s2 = ZERO if kind == 's0' else v('spin2')
        ls = maxI(s1, s2)
        X1 = ('0', 'e', 'b') if a1 and kind != '0s' else ('0',)
        X2 = ('0', 'e', 'b') if a2 and kind != 's0' else ('0',)
        sgn = lambda s, x: ite(eq(imod(s, I(2)), 0), 1, -1) if x == '0' else ONE
        W = lambda l, s, x: W3J(l, a, b, s, neg(s)) if x == '0' else ite(ge(l, mul(2, s)), W3J(l, a, b, s, s), 0)

        def elem(i, j, k, m):
            l = fresh('l')
            tot = ZERO
            for x in X1:
                for y in X2:
                    if kind == 'ss':
                        f = add(mul(iv(eq(imod(add(l, a, b), I(2)), 0)), OPP[x][i][k] * OPP[y][j][m]),
                                mul(iv(eq(imod(add(l, a, b), I(2)), 1)), OPM[x][i][k] * OPM[y][j][m]))
                    else:
                        f = num(OPP[y][j][m] if kind == '0s' else OPP[x][i][k])
                    c = rdiv(mul(A('pcl_masks_%s%s' % (x, y), l, s='R'), add(mul(2, l), 1)), mul(4, PI))
                    tot = add(tot, mul(f, c, sgn(s1, x), sgn(s2, y), W(l, s1, x), W(l, s2, y)))
            return mul(add(mul(2, b), 1), sum_(l, absI(sub(a, b)), minI(add(a, b, 1), add(v('lmax_mask'), 1)), tot))
        for r in range(n):
            row = q1.idx(U, add(mul(n, a), r), 'flouble *')
            for c in range(n):
                got = q1.idx(row, add(mul(n, b), c))
                i, j, k, m = (r // 2, r % 2, c // 2, c % 2) if kind == 'ss' else (0, r, 0, c) if kind == '0s' else (r, 0, c, 0)
                yield ('coupling of component %d into %d' % (c, r), eq(got, ite(and_(ge(a, ls), ge(b, ls)), elem(i, j, k, m), 0)), d)
        l = sk()
        d = rng(l, 0, add(LF, 1))
        q2 = q.at(d)
        yield ('beam product', eq(q2.idx(q2.fld(q2.ret, 'beam_prod', 'flouble *'), l), mul(A('beam1', l, s='R'), A('beam2', l, s='R'))), d)
        for f, x in (('lmax', BM), ('lmax_fields', LF), ('lmax_mask', v('lmax_mask')), ('ncls', n), ('norm_type', v('norm_type')), ('is_teb', 0)):
            yield (f, eq(q.fld(q.ret, f), x))
        yield ('w2', eq(q.fld(q.ret, 'w2', 'double'), v('w2', 'R')))
    return post


for kind, a1, a2, same in (('0s', 0, 1, 0), ('s0', 1, 0, 0), ('ss', 1, 1, 1), ('ss', 1, 0, 1), ('ss', 0, 1, 1), ('ss', 1, 1, 0), ('ss', 1, 0, 0), ('ss', 0, 1, 0)):
    ar = {'mask_aniso_1': a1, 'mask_aniso_2': a2}
    if kind == '0s': ar['spin1'] = 0
    if kind == 's0': ar['spin2'] = 0
    ln = {**bin_lens('bin'), 'beam1': add(LF, 1), 'beam2': add(LF, 1)}
    for m in ('00', '0e', '0b', 'e0', 'b0', 'ee', 'eb', 'be', 'bb'):
        need = (m[0] == '0' or a1) and (m[1] == '0' or a2)
        ln['pcl_masks_' + m] = add(v('lmax_mask'), 1) if need else 0
    SPECS.append(Spec('nmt_compute_coupling_matrix_anisotropic', name='nmt_compute_coupling_matrix_anisotropic[%s,%d%d%s]' % (kind, a1, a2, ',s1=s2' if same else ''), args=ar, lens=ln,
                      pre=lambda e, kind=kind, same=same: [ge(LF, 0), ge(v('lmax_mask'), 0), ge(A('bin.n_bands'), 1), eq(BM, LF)] +
                      ([ge(v('spin1'), 1)] if kind in ('s0', 'ss') else []) + ([ge(v('spin2'), 1)] if kind in ('0s', 'ss') else []) +
                      ([(eq if same else ne)(v('spin1'), v('spin2'))] if kind == 'ss' else []),
                      facts=lambda e: bin_inv('bin', BM), post=aniso_post(kind, a1, a2),
                      contracts={**W3JC, **c_skip('bin_coupling_matrix')}, slow=kind == 'ss' and not same, cost=50 if kind == 'ss' else 3))


# ---------------------------------------------------------------- Toeplitz approximation: the exactly computed region
LT, LE, DB = v('l_toeplitz'), v('l_exact'), v('dl_band')


def tpre(kind):
    return lambda e: mpre(kind, False)(e) + [ge(LT, 1), le(LT, LM), ge(LE, 0), le(LE, LT), ge(DB, 0), le(DB, LT)]


def tpost(kind):
    def post(q):
        a, b, ic = sk(), sk(), sk()
        d = and_(rng(a, 0, N1), rng(b, 0, N1), rng(ic, 0, NP))
        lo, hi = minI(a, b), maxI(a, b)
        exact = or_(le(lo, LE), and_(le(lo, LT), le(sub(hi, lo), DB)), eq(a, b))
        q1 = q.at(d)
        ls = ZERO if kind in ('00', 'teb') else maxI(v('s1') if kind not in ('0s',) else 0, v('s2') if kind != 's0' else 0)
        for nm, ip, f in sums(kind, False):
            def S(x, y):
                l = fresh('l')
                return sum_(l, absI(sub(x, y)), minI(add(x, y, 1), add(LK, 1)), f(ic, l, x, y))
            for nm2, cc, want in (('<=', le(a, b), S(a, b)), ('>', gt(a, b), S(b, a))):
                dd = and_(d, cc, exact, ge(a, ls), ge(b, ls))
                q2 = q.at(dd)
                p = q2.fld(q2.ret, nm, 'flouble ***' if ip is None else 'flouble ****')
                p = q2.idx(p, ic, 'flouble **' if ip is None else 'flouble ***')
                if ip is not None:
                    p = q2.idx(p, ip, 'flouble **')
                p = q2.idx(p, a, 'flouble *')
                yield ('%s[%s] is exact in the exact region (%s)' % (nm, ip, nm2), eq(q2.idx(p, b, 'double'), want), dd)
    return post


for kind in ('00', '0s', 'ss'):
    ar = {k: x for k, x in common_args(kind, False).items() if k not in ('l_toeplitz', 'l_exact', 'dl_band')}
    SPECS.append(Spec('nmt_compute_master_coefficients', name='nmt_compute_master_coefficients[toeplitz,%s]' % kind,
                      lens={'pcl_masks': NP, 'pcl_masks[]': lambda c: add(LK, 1)}, args=ar,
                      pre=tpre(kind), contracts=W3JC, post=tpost(kind)))
