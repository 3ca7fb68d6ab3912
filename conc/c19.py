"""Deprojection bias against the exact ensemble average of the estimator (linear algebra on every mode and pixel)."""
import numpy as np
import healpy as hp
import pymaster as nmt
import pymaster.utils as ut
from . import orc
from .geo import Geo, rand_geo, describe
from .flat import rand_patch, Patch, rand_bands, rand_cuts, interp
from .c27 import Pure, band_mask, nal


def sht_ops(g, spin, lmax):
    """S: real orthonormal modes -> pixels; A: pixels -> complex coefficients (quadrature with the pixel areas)"""
    import ducc0
    loc = np.ascontiguousarray(np.array([g.theta[g.order], g.phi[g.order]]).T)
    n = 2 if spin else 1
    l, m = hp.Alm.getlm(lmax)
    S, lab = [], []
    A = np.zeros((n, len(l), n, len(loc)), complex)
    for comp in range(n):
        for i in range(len(l)):
            if l[i] < spin: continue
            for ph in ((1.,) if m[i] == 0 else (1., 1j)):
                a = np.zeros((n, len(l)), complex); a[comp, i] = ph
                y = ducc0.sht.synthesis_general(alm=a, spin=spin, lmax=lmax, loc=loc, epsilon=1e-13)
                w = 1. if m[i] == 0 else .5
                A[comp, i] += y * w * g.area[g.order] * (1. if ph == 1. else 1j)
                S.append(y * (1. if m[i] == 0 else np.sqrt(.5))); lab.append((comp, l[i], m[i], ph == 1.))
    return np.array(S), lab, A


def pcl(l, m, lmax, X):
    """X: [comp1, lm, comp2, lm] second moments a conj(b) -> spectra [comp1,comp2,l]"""
    out = np.zeros((X.shape[0], X.shape[2], lmax + 1))
    d = np.einsum('albl->abl', X).real * np.where(m > 0, 2, 1)
    for L in range(lmax + 1):
        out[..., L] = d[..., l == L].sum(-1) / (2 * L + 1)
    return out


def deproj(T, M, area):
    """operator: unmasked map -> template coefficients"""
    F = T * M
    A = (F * np.sqrt(area)).reshape(len(T), -1)
    return np.linalg.pinv(A @ A.T, rcond=1e-10, hermitian=True) @ (F * area * M).reshape(len(T), -1)


def full_op(A0, T, M, area):
    """coefficients of the deprojected field as a function of the unmasked map; A0 acts on unmasked maps"""
    n, k = A0.shape[:2]
    B = A0.reshape(n * k, -1)
    if T is not None:
        al = deproj(T, M, area)
        B = B - (B @ T.reshape(len(T), -1).T) @ al
    return B.reshape(A0.shape)


def curved(c, rng):
    if rng.integers(0, 3): g = Geo(nside=2)
    else:
        while True:
            g = rand_geo(rng, False, 9)
            if g.area.min() > 0 and len(g.area) > 24 and len(g.area) < 140: break
    lmax = int(rng.integers(3, min(5, g.lmax) + 1))
    spins = [int(rng.choice([0, 0, 1, 2, 2])) for _ in range(2)]
    same = rng.integers(0, 4) == 0
    if same: spins[1] = spins[0]
    lmm = int(rng.integers(3, min(5, g.lmax) + 1))
    area = g.area[g.order]
    f, ops, S, n = [], [], [], []
    desc = []
    for i in range(2):
        if i and same: f.append(f[0]); ops.append(ops[0]); S.append(S[0]); n.append(n[0]); break
        s = spins[i]
        pur = (0, 0)
        if s == 2 and rng.integers(0, 2) and g.nside: pur = [(1, 0), (0, 1), (1, 1)][rng.integers(0, 3)]
        wal, m = band_mask(rng, g, 2) if any(pur) else (None, rng.uniform(0, 1, g.shape))
        nm = 2 if s else 1
        nt = int(rng.integers(0, 4))
        tm = rng.normal(size=(nt, nm) + g.shape) if nt else None
        if nt > 1 and rng.integers(0, 3) == 0: tm[-1] = 2 * tm[0]
        mp = rng.normal(size=(nm,) + g.shape)
        desc.append(dict(spin=s, pure=pur, mask=m, templates=tm))
        c.case(kind='curved', geometry=describe(g), lmax=lmax, lmax_mask=lmm, fields=desc, same=bool(same))
        f.append(nmt.NmtField(m, mp, spin=s, templates=tm, wcs=g.wcs, purify_e=bool(pur[0]), purify_b=bool(pur[1]), n_iter=0, n_iter_mask=25, lmax=lmax, lmax_mask=lmm))
        S_, lab, A = sht_ops(g, s, lmax)
        M = g.flat(m)
        A0 = A * M
        if any(pur): A0 = Pure(g, wal, 2, M, lmax, *pur).A
        T = None if tm is None else g.flat(tm)
        ops.append((A0, full_op(A0, T, M, area))); S.append((S_, lab)); n.append(nm)
    cl = rng.normal(size=(n[0], n[1], lmax + 1)) / (1. + np.arange(lmax + 1))
    c.case(kind='curved', geometry=describe(g), lmax=lmax, lmax_mask=lmm, fields=desc, same=bool(same), cl=cl)
    got = nmt.deprojection_bias(f[0], f[1], cl.reshape(-1, lmax + 1), n_iter=0)
    # covariance of the unmasked maps
    (S1, l1), (S2, l2) = S
    C = np.zeros((len(l1), len(l2)))
    for i, (a, la, ma, pa) in enumerate(l1):
        for j, (b, lb, mb, pb) in enumerate(l2):
            if (la, ma, pa) == (lb, mb, pb): C[i, j] = cl[a, b, la]
    X = np.einsum('iax,ij,jby->axby', S1, C, S2, optimize=True)
    l, m = hp.Alm.getlm(lmax)
    E = lambda A, B: pcl(l, m, lmax, np.einsum('alpx,pxqy,bmqy->albm', A, X, B.conj(), optimize=True))
    e0 = E(ops[0][0], ops[1][0])
    want = E(ops[0][1], ops[1][1]) - e0
    sc = np.abs(e0).max()
    tol = 1e-8 if not any(any(d['pure']) for d in desc) else 1e-5
    c.close('bias equals the ensemble average of the estimator', got, want.reshape(-1, lmax + 1), tol, scale=sc)
    gt = nmt.deprojection_bias(f[1], f[0], cl.transpose(1, 0, 2).reshape(-1, lmax + 1).copy(), n_iter=0)
    c.close('exchanging the fields permutes the bias', gt.reshape(n[1], n[0], -1).transpose(1, 0, 2), got.reshape(n[0], n[1], -1), 1e-9, scale=sc)
    if all(x.n_temp == 0 for x in f): c.close('no templates: no bias', got, 0 * got)
    # uncorrelated noise
    var = rng.uniform(.1, 2, g.shape)
    c.case(kind='uncorrelated noise', geometry=describe(g), lmax=lmax, lmax_mask=lmm, fields=desc[:1], variance=var)
    got = nmt.uncorr_noise_deprojection_bias(f[0], var, n_iter=0)
    D = g.flat(var) / area
    E = lambda A: pcl(l, m, lmax, np.einsum('alpx,x,bmpx->albm', A, D, A.conj(), optimize=True))
    e0 = E(ops[0][0])
    want = E(ops[0][1]) - e0
    sc = np.abs(e0).max()
    c.close('uncorrelated-noise bias equals the ensemble average', got, want.reshape(-1, lmax + 1), tol, scale=sc)
    # refusals
    c.raises('wrong number of spectra', lambda: nmt.deprojection_bias(f[0], f[1], np.zeros((n[0] * n[1] + 1, lmax + 1))))
    c.raises('short spectra', lambda: nmt.deprojection_bias(f[0], f[1], np.zeros((n[0] * n[1], lmax))))
    c.raises('variance map of another size', lambda: nmt.uncorr_noise_deprojection_bias(f[0], var.ravel()[:-1]))
    d = desc[0]
    fl = nmt.NmtField(d['mask'], rng.normal(size=(n[0],) + g.shape), spin=d['spin'], templates=d['templates'], wcs=g.wcs, n_iter=0, lmax=lmax, lmax_mask=lmm, lite=True)
    z = np.zeros((n[0] * n[0], lmax + 1))
    c.raises('lightweight fields are refused', lambda: nmt.deprojection_bias(fl, f[0], z))
    c.raises('lightweight fields are refused', lambda: nmt.deprojection_bias(f[0], fl, z))
    c.raises('lightweight fields are refused', lambda: nmt.uncorr_noise_deprojection_bias(fl, var))
    fo = nmt.NmtField(d['mask'], None, spin=d['spin'], wcs=g.wcs, lmax=lmax - 1, lmax_mask=lmm)
    c.raises('incompatible fields are refused', lambda: nmt.deprojection_bias(f[0], fo, z))


def flat_ops(P, spin):
    """A: pixels -> coefficients on the full plane"""
    n = 2 if spin else 1
    N = P.nx * P.ny
    A = np.zeros((n, N, n, N), complex)
    for p in range(n):
        for i in range(N):
            m = np.zeros((n, P.ny, P.nx)); m[p].ravel()[i] = 1
            A[:, :, p, i] = P.full(P.m2a(m, spin)).reshape(n, -1)
    return A


def flat(c, rng):
    P = rand_patch(rng, True, 7)
    N = P.nx * P.ny
    spins = [int(rng.choice([0, 0, 1, 2, 2])) for _ in range(2)]
    same = rng.integers(0, 4) == 0
    if same: spins[1] = spins[0]
    l0, lf = rand_bands(rng, P, 4); cx, cy = rand_cuts(rng, P)
    f, ops, n, raw, desc = [], [], [], [], []
    area = np.full(N, P.lx * P.ly / N)
    for i in range(2):
        if i and same: f.append(f[0]); ops.append(ops[0]); n.append(n[0]); raw.append(raw[0]); break
        s = spins[i]
        pur = (0, 0)
        if s == 2 and rng.integers(0, 2): pur = [(1, 0), (0, 1), (1, 1)][rng.integers(0, 3)]
        m = rng.uniform(.1, 1, (P.ny, P.nx))
        nm = 2 if s else 1
        nt = int(rng.integers(0, 4))
        tm = rng.normal(size=(nt, nm, P.ny, P.nx)) if nt else None
        if nt > 1 and rng.integers(0, 3) == 0: tm[-1] = 2 * tm[0]
        desc.append(dict(spin=s, pure=pur, mask=m, templates=tm))
        f.append(nmt.NmtFieldFlat(P.lx, P.ly, m, rng.normal(size=(nm, P.ny, P.nx)), spin=s, templates=tm, purify_e=bool(pur[0]), purify_b=bool(pur[1])))
        A = flat_ops(P, s)
        M = m.ravel()
        A0 = A * M
        if any(pur):
            from .c27 import flat_pure
            for p in range(2):
                for k in range(N):
                    e = np.zeros((2, P.ny, P.nx)); e[p].ravel()[k] = 1
                    A0[:, :, p, k] = P.full(flat_pure(P, m, e, *pur)[0]).reshape(2, -1)
        T = None if tm is None else tm.reshape(nt, nm, N)
        ops.append((A0, full_op(A0, T, M, area))); n.append(nm); raw.append(A)
    ne = int(rng.integers(2, 7)); ells = np.sort(rng.uniform(0, 1.2 * P.k.max(), ne))
    cl = rng.normal(size=(n[0], n[1], ne))
    c.case(kind='flat', nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, fields=desc, same=bool(same), l0=l0, lf=lf, cut_x=cx, cut_y=cy, ells=ells, cl=cl)
    b = nmt.NmtBinFlat(l0, lf)
    got = nmt.deprojection_bias_flat(f[0], f[1], b, ells, cl.reshape(-1, ne), ell_cut_x=cx, ell_cut_y=cy)
    ck = np.array([[interp(ells, x, P.k).ravel() for x in y] for y in cl])
    inv = np.linalg.inv(raw[0].reshape(n[0] * N, -1)).reshape(n[0], N, n[0], N)      # coefficients -> map
    X = (np.einsum('xyak,abk,bkzw->xyzw', inv, ck, raw[1], optimize=True) / area[0]).real
    E = lambda A, B: np.einsum('akpx,pxqy,bkqy->abk', A, X, B.conj(), optimize=True).real
    bd = np.where(P.sel(cx, cy), P.band(l0, lf), -1).ravel()

    def band(x):
        out = np.zeros(x.shape[:2] + (len(l0),))
        for i in range(len(l0)):
            if np.any(bd == i): out[..., i] = x[..., bd == i].mean(-1)
        return out.reshape(-1, len(l0)) * 4 * np.pi ** 2 / (P.lx * P.ly)
    e0 = band(E(ops[0][0], ops[1][0]))
    want = band(E(ops[0][1], ops[1][1])) - e0
    sc = np.abs(e0).max() + np.abs(cl).max()
    c.close('flat-sky bias equals the ensemble average of the estimator', got, want, 1e-8, scale=sc)
    gt = nmt.deprojection_bias_flat(f[1], f[0], b, ells, cl.transpose(1, 0, 2).reshape(-1, ne).copy(), ell_cut_x=cx, ell_cut_y=cy)
    c.close('flat-sky: exchanging the fields permutes the bias', gt.reshape(n[1], n[0], -1).transpose(1, 0, 2), got.reshape(n[0], n[1], -1), 1e-9, scale=sc)
    if all(d['templates'] is None for d in desc): c.close('flat-sky: no templates: no bias', got, 0 * got)
    c.raises('flat-sky: wrong number of spectra', lambda: nmt.deprojection_bias_flat(f[0], f[1], b, ells, np.zeros((n[0] * n[1] + 1, ne))))
    c.raises('flat-sky: short spectra', lambda: nmt.deprojection_bias_flat(f[0], f[1], b, ells, np.zeros((n[0] * n[1], ne - 1))))
    d = desc[0]
    fl = nmt.NmtFieldFlat(P.lx, P.ly, d['mask'], rng.normal(size=(n[0], P.ny, P.nx)), spin=d['spin'], templates=d['templates'], lite=True)
    z = np.zeros((n[0] * n[0], ne))
    c.raises('flat-sky: lightweight fields are refused', lambda: nmt.deprojection_bias_flat(fl, f[0], b, ells, z))
    c.raises('flat-sky: lightweight fields are refused', lambda: nmt.deprojection_bias_flat(f[0], fl, b, ells, z))
    fo = nmt.NmtFieldFlat(P.lx * 1.3, P.ly, d['mask'], rng.normal(size=(n[0], P.ny, P.nx)), spin=d['spin'])
    c.raises('flat-sky: different patches are refused', lambda: nmt.deprojection_bias_flat(f[0], fo, b, ells, z))


def run(c):
    rng = c.rng
    K = 0
    import warnings; warnings.simplefilter('ignore')
    while c.more() and K < (600 if c.thorough else 90):
        K += 1
        [curved, flat][K % 2](c, rng)
