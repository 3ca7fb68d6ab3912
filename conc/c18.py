"""Fields: masking, exact deprojection, storage rules (curved and flat)."""
import numpy as np
import pymaster as nmt
import pymaster.utils as ut
from .geo import rand_geo, describe
from .flat import rand_patch


def residual(y, F, area, tol=1e-10):
    """y minus its weighted least-squares combination of F; also tells whether the spectrum is clear of the threshold"""
    w = np.sqrt(area)
    if not len(F): return y, True, np.zeros((0, 0))
    A = (F * w).reshape(len(F), -1)
    G = A @ A.T
    ev = np.linalg.eigvalsh(G)
    mx = ev.max()
    if mx <= 0: return y, True, A @ A.T
    ok = not np.any((ev > 1e-14 * mx) & (ev < 1e-7 * mx))
    U, s, V = np.linalg.svd(A, full_matrices=False)
    k = s ** 2 > tol * s.max() ** 2
    V = V[k]
    r = (y * w).ravel(); r = r - V.T @ (V @ r)
    with np.errstate(all='ignore'):
        out = np.where(w > 0, r.reshape(y.shape) / w, y)
    # pixels of zero area: combination with the minimum-norm coefficients
    co = (U[:, k] / s[k]) @ (V @ (y * w).ravel())
    out = y - np.tensordot(co, F, 1)
    return out, ok, G


def templates(rng, nt, nm, shape, msk):
    t = rng.normal(size=(nt, nm) + shape)
    kind = rng.integers(0, 6)
    if nt > 1 and kind == 0: t[-1] = t[0]
    if nt > 2 and kind == 1: t[-1] = t[0] * .5 - 2 * t[1]
    if kind == 2: t[0] = 0
    if kind == 3: t *= (msk == 0)                 # nothing left inside the mask
    if kind == 4: t[0] *= 10. ** float(rng.integers(-2, 3))
    return t


def check_field(c, rng, curved):
    if curved:
        g = rand_geo(rng)
        P = None; shape = g.shape; area = g.area[g.order]; desc = describe(g)
        flat = g.flat
    else:
        P = rand_patch(rng, None, 12); shape = (P.ny, P.nx); desc = dict(nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly)
        area = np.full(shape, P.lx * P.ly / (P.nx * P.ny)); flat = lambda m: np.asarray(m)
    spin = int(rng.choice([0, 0, 1, 2, 2, 3])); nm = 2 if spin else 1
    msk = rng.uniform(0, 1, shape); z = rng.integers(0, 3)
    if z: msk[rng.uniform(size=shape) < .3] = 0
    if z == 2: msk = (msk > 0).astype(float)
    if rng.integers(0, 5) == 0: msk -= .2
    nt = int(rng.integers(0, 5))
    mp = rng.normal(size=(nm,) + shape)
    tm = templates(rng, nt, nm, shape, msk) if nt else None
    minp = bool(rng.integers(0, 2))
    lite = bool(rng.integers(0, 2))
    nit = int(rng.integers(0, 3))
    lm = {}
    if curved:
        if rng.integers(0, 2): lm = dict(lmax=int(rng.integers(max(spin, 1), g.lmax + 1)))
        if rng.integers(0, 2): lm['lmax_mask'] = int(rng.integers(1, g.lmax + 1))
    tol = None
    c.case(curved=curved, geometry=desc, spin=spin, mask=msk, maps=mp, templates=tm, masked_on_input=minp, lite=lite, n_iter=nit, **lm)
    if minp:
        mp_in = mp * msk; tm_in = None if tm is None else tm * msk
    else:
        mp_in, tm_in = mp, tm

    def build(mp_, tm_, lite_=False, sp=None, **k):
        kw = dict(k)
        if curved: return nmt.NmtField(msk, mp_, spin=sp, templates=tm_, n_iter=nit, wcs=g.wcs, masked_on_input=minp, lite=lite_, **lm, **kw)
        return nmt.NmtFieldFlat(P.lx, P.ly, msk, mp_, spin=sp, templates=tm_, masked_on_input=minp, lite=lite_, **kw)
    sp = spin
    if (spin in (0, 2)) and rng.integers(0, 2): sp = None       # spin follows from the number of maps
    m0, a0, t0 = msk.copy(), mp_in.copy(), None if tm is None else tm_in.copy()
    if rng.integers(0, 2):
        mp_arg, tm_arg = mp_in, tm_in
    else:
        mp_arg = [x for x in mp_in]; tm_arg = None if tm is None else [[y for y in x] for x in tm_in]
    f = build(mp_arg, tm_arg, False, sp)
    c.true('inputs are not modified', np.array_equal(m0, msk) and np.array_equal(a0, mp_in) and np.array_equal(a0, np.array(mp_arg)) and (tm is None or (np.array_equal(t0, tm_in) and np.array_equal(t0, np.array(tm_arg)))))
    F = np.zeros((0, nm) + flat(msk).shape) if tm is None else flat(tm * msk)
    y = flat(mp * msk)
    want, ok, G = residual(y, F, area, 1e-10)
    got = f.get_maps()
    sc = np.abs(y).max() + 1e-300
    c.close('mask', f.get_mask(), flat(msk), 1e-14)
    if tm is not None:
        c.close('templates are stored masked', f.get_templates(), F, 1e-13)
    if not ok: return
    c.close('stored map: masked and deprojected', got, want, 1e-7, scale=sc)
    for i in range(len(F)):
        n = np.sqrt(np.sum(F[i] ** 2 * area) * np.sum(y ** 2 * area))
        c.true('orthogonal to the templates', np.abs(np.sum(F[i] * got * area)) <= 1e-7 * n, (i, np.sum(F[i] * got * area), n))
    # coefficients are those of the stored map
    if curved:
        al = f.get_alms()
        w2 = ut.map2alm(got, spin, f.minfo, f.ainfo, n_iter=nit)
        c.close('coefficients of the stored map', al, w2, 1e-9, scale=np.abs(w2).max() + 1e-30)
        if nit == 0 and g.nside: _ylm(c, got, spin, al, f.ainfo.lmax, g)
        c.true('multipole limits', f.ainfo.lmax == lm.get('lmax', f.minfo.get_lmax()) and f.ainfo_mask.lmax == lm.get('lmax_mask', f.minfo.get_lmax()))
        ma = f.get_mask_alms()
        c.close('mask coefficients', ma, ut.map2alm(np.array([f.get_mask()]), 0, f.minfo, f.ainfo_mask, n_iter=3)[0], 1e-9)
        spec = lambda x: nmt.compute_coupled_cell(x, x)
    else:
        l0, lf = np.array([0., P.k.max() * .5]), np.array([P.k.max() * .5, P.k.max() * 1.01])
        bb = nmt.NmtBinFlat(l0, lf)
        spec = lambda x: nmt.compute_coupled_cell_flat(x, x, bb)
        al = P.m2a(got, spin)
        c.close('coefficients of the stored map', spec(f), P.cls(al, al, l0, lf, [1., -1.], [1., -1.]), 1e-8, scale=np.abs(al).max() ** 2 * 4 * np.pi ** 2 / (P.lx * P.ly) + 1e-300)
    cf = spec(f)
    cs = np.abs(cf).max() + 1e-30
    # template order and contamination do not matter
    if tm is not None and np.abs(F).max() > 0:
        p = rng.permutation(nt)
        f2 = build(mp_in, tm_in[p], False, sp)
        c.close('template order is irrelevant', f2.get_maps(), got, 1e-6, scale=sc)
        co = rng.normal(size=nt)
        add = np.tensordot(co, tm_in, 1)
        f3 = build(mp_in + add, tm_in, False, sp)
        c.close('added templates are removed', f3.get_maps(), got, 1e-6, scale=sc + np.abs(add).max())
    # lightweight and mask-only
    fl = build(mp_in, tm_in, True, sp)
    c.close('lightweight fields: same spectra', spec(fl), cf, 1e-8, scale=cs)
    c.close('lightweight fields: same mask', fl.get_mask(), flat(msk), 1e-14)
    c.raises('lightweight fields have no maps', fl.get_maps)
    c.raises('lightweight fields have no templates', fl.get_templates)
    if curved: c.close('lightweight fields: mask coefficients', fl.get_mask_alms(), ma, 1e-12)
    fm = build(None, None, bool(rng.integers(0, 2)), spin)
    c.close('mask-only fields: mask', fm.get_mask(), flat(msk), 1e-14)
    c.raises('mask-only fields have no maps', fm.get_maps)
    c.raises('mask-only fields have no templates', fm.get_templates)
    c.raises('mask-only fields have no spectra', lambda: spec(fm))
    if curved:
        c.raises('mask-only fields have no coefficients', fm.get_alms)
        c.close('mask-only fields: mask coefficients', fm.get_mask_alms(), ma, 1e-12)
    c.raises('mask-only fields need a spin', lambda: build(None, None, False, None))
    # refusals
    c.raises('wrong number of maps', lambda: build(np.concatenate([mp_in] * 3)[:3], None))
    c.raises('spin and maps disagree', lambda: build(mp_in, None, False, 2 if spin == 0 else 0))
    c.raises('wrong map shape', lambda: build(mp_in[..., :-1], None))
    if tm is not None:
        c.raises('wrong template shape', lambda: build(mp_in, tm_in[..., :-1]))
        c.raises('wrong number of template components', lambda: build(mp_in, np.concatenate([tm_in, tm_in], axis=1)))
        c.raises('templates must be arrays', lambda: build(mp_in, 3.))
    if spin != 2:
        c.raises('purification needs spin 2', lambda: build(mp_in, None, False, sp, purify_b=True))


def _ylm(c, mp, spin, al, lmax, g):
    """harmonic coefficients as inner products with the (spin) harmonics, pixel by pixel, for a few (l,m)"""
    import ducc0
    lmx = lmax
    n = 2 if spin else 1
    nal = (lmx + 1) * (lmx + 2) // 2
    loc = np.ascontiguousarray(np.array([g.theta, g.phi]).T)
    rng = c.rng
    for _ in range(2):
        l = int(rng.integers(spin, lmx + 1)); m = int(rng.integers(0, l + 1)); k = int(rng.integers(0, n))
        idx = m * (2 * lmx + 1 - m) // 2 + l
        for ph in ((1.,) if m == 0 else (1., 1j)):
            a = np.zeros((n, nal), complex); a[k, idx] = ph
            y = ducc0.sht.synthesis_general(alm=a, spin=spin, lmax=lmx, loc=loc, epsilon=1e-12)
            v = np.sum(y * mp) * g.area[0]
            if m: v /= 2.
            got = al[k, idx].real if ph == 1. else al[k, idx].imag
            c.close('coefficients are inner products with the harmonics', got, v, 1e-8, scale=np.abs(al).max() + 1e-30)


def aniso(c, rng):
    g = rand_geo(rng)
    spin = int(rng.integers(1, min(4, g.lmax // 2 + 1)))
    nm = 2
    a, b = rng.uniform(.2, 1, (2,) + g.shape)
    x = rng.uniform(-.9, .9, g.shape) * np.sqrt(a * b)
    mp = rng.normal(size=(2,) + g.shape)
    minp = bool(rng.integers(0, 2))
    c.case(kind='anisotropic mask', geometry=describe(g), spin=spin, mask_11=a, mask_22=b, mask_12=x, maps=mp, masked_on_input=minp)
    want = np.array([a * mp[0] + x * mp[1], x * mp[0] + b * mp[1]])
    ins = [q.copy() for q in (a, b, x, mp)]
    f = nmt.NmtField(a, want if minp else mp, spin=spin, wcs=g.wcs, mask_22=b, mask_12=x, masked_on_input=minp, n_iter=0)
    c.true('inputs are not modified', all(np.array_equal(p, q) for p, q in zip(ins, (a, b, x, mp))))
    c.close('anisotropic weights are applied once', f.get_maps(), g.flat(want), 1e-12)
    c.close('isotropic part of the weights', f.get_mask(), g.flat(.5 * (a + b)), 1e-13)
    c.close('spin part of the weights', f.get_anisotropic_mask(), g.flat(np.array([.5 * (a - b), x])), 1e-12, scale=1)
    c.close('coefficients of the stored map', f.get_alms(), ut.map2alm(f.get_maps(), spin, f.minfo, f.ainfo, n_iter=0), 1e-10)
    c.close('mask coefficients', f.get_anisotropic_mask_alms(), ut.map2alm(f.get_anisotropic_mask(), 2 * spin, f.minfo, f.ainfo_mask, n_iter=3), 1e-9)
    fi = nmt.NmtField(a, mp, spin=spin, wcs=g.wcs, n_iter=0)
    c.raises('isotropic fields have no anisotropic mask', fi.get_anisotropic_mask)
    c.raises('isotropic fields have no anisotropic mask (alm)', fi.get_anisotropic_mask_alms)
    c.raises('all components of the weights are needed', lambda: nmt.NmtField(a, mp, spin=spin, wcs=g.wcs, mask_22=b))
    c.raises('all components of the weights are needed (2)', lambda: nmt.NmtField(a, mp, spin=spin, wcs=g.wcs, mask_12=x))
    c.raises('weights must be positive', lambda: nmt.NmtField(a, mp, spin=spin, wcs=g.wcs, mask_22=b, mask_12=3 * np.sqrt(a * b)))
    c.raises('no anisotropic weights for scalars', lambda: nmt.NmtField(a, mp[:1], spin=0, wcs=g.wcs, mask_22=b, mask_12=x))
    c.raises('no anisotropic weights for scalars (mask only)', lambda: nmt.NmtField(a, None, spin=0, wcs=g.wcs, mask_22=b, mask_12=x))
    c.raises('no templates with anisotropic weights', lambda: nmt.NmtField(a, mp, spin=spin, wcs=g.wcs, mask_22=b, mask_12=x, templates=mp[None]))
    c.raises('no purification with anisotropic weights', lambda: nmt.NmtField(a, mp, spin=2, wcs=g.wcs, mask_22=b, mask_12=x, purify_b=True))


def run(c):
    rng = c.rng
    K = 0
    import warnings; warnings.simplefilter('ignore')
    while c.more() and K < (3000 if c.thorough else 160):
        K += 1
        if K % 8 == 7: aniso(c, rng)
        else: check_field(c, rng, K % 2 == 0)
