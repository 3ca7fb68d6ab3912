"""Toeplitz approximation: exact region exact, remainder from the documented scaling."""
import numpy as np
import pymaster as nmt
from pymaster import nmtlib as lib
from . import orc
from .c04 import matrix, rand_pcl


def toep(X, lmax, lt, le, dl):
    """documented approximation of one symmetric coefficient matrix from its exact version"""
    d = np.abs(np.diag(X))
    T = np.zeros_like(X)
    for a in range(lmax + 1):
        for b in range(a, lmax + 1):
            D = b - a
            if a <= le or a == b or (a <= lt and D <= dl):
                v = X[b, a]
            else:
                ref = lt if D < lmax - lt else le
                den = d[ref] * d[ref + D]
                v = X[ref + D, ref] * np.sqrt(d[a] * d[b] / den) if den > 0 else 0.
            T[a, b] = T[b, a] = v
    return T


def exact_mask(lmax, lt, le, dl):
    a = np.minimum.outer(np.arange(lmax + 1), np.arange(lmax + 1))
    D = np.abs(np.subtract.outer(np.arange(lmax + 1), np.arange(lmax + 1)))
    return (a <= le) | (D == 0) | ((a <= lt) & (D <= dl))


def run(c):
    rng = c.rng
    sp = [(0, 0, 0), (0, 2, 0), (2, 2, 0), (2, 0, 0), (0, 2, 1), (1, 2, 0), (0, 1, 0), (2, 1, 0), (1, 1, 0), (0, 1, 1), (3, 3, 0)]
    for it in range(900 if c.thorough else 220):
        if not c.more(): break
        s1, s2, teb = sp[it % len(sp)]
        lmax = int(rng.integers(6, 17))
        L1 = int(rng.integers(3, 2 * lmax)) if it % 2 else lmax
        pcl = rand_pcl(rng, L1)
        if it % 4 < 2: pcl = np.abs(pcl) + .1
        lt = int(rng.integers(1, lmax)); le = int(rng.integers(1, lt + 1)); dl = int(rng.integers(0, lmax))
        if it % 7 == 0: lt = lmax - 1
        if it % 11 == 0: le = lt
        if it % 5 == 0: lt, le, dl = -1, -1, -1
        c.case(kind='nmt_compute_coupling_matrix with Toeplitz', spin1=s1, spin2=s2, teb=teb, lmax=lmax, lmax_mask=L1, l_toeplitz=lt, l_exact=le, dl_band=dl, pcl=pcl)
        w, M, b = matrix(s1, s2, lmax, pcl, teb=teb, tp=(lt, le, dl))
        W = orc.mcm(pcl, s1, s2, lmax, teb=teb)
        n = w.ncls
        f = 2. * np.arange(lmax + 1) + 1
        C, X = (A.reshape(lmax + 1, n, lmax + 1, n) / f[None, None, :, None] for A in (M, W))
        sc = np.abs(pcl).max() * 3
        if lt < 0:
            if not c.close('exact when switched off', C, X, 1e-10, scale=sc): break
        else:
            ex = exact_mask(lmax, lt, le, dl)
            for i in range(n):
                for j in range(n):
                    c.close('exact region, band and diagonal are exact', C[:, i, :, j][ex], X[:, i, :, j][ex], 1e-10, scale=sc)
                    c.close('coefficients symmetric', C[:, i, :, j], C[:, i, :, j].T, 1e-10, scale=max(sc, np.abs(C[:, i, :, j]).max()))
                    T = toep(X[:, i, :, j], lmax, lt, le, dl)
                    ok = np.ones_like(ex)
                    # elements whose reference diagonal is zero up to rounding are not determined
                    d = np.abs(np.diag(X[:, i, :, j]))
                    if d.size and d[max(s1, s2):].min() > 1e-8 * sc:
                        c.close('remaining elements follow the scaling', C[:, i, :, j], T, 1e-7, scale=max(sc, np.abs(T).max()))
        lib.workspace_free(w)
        if c.failures: break
    # covariance coefficients share the calculator; Python refuses inconsistent parameters
    ns = 8
    mask = rng.uniform(.2, 1, 12 * ns ** 2)
    lmax = 12
    f0 = nmt.NmtField(mask, None, spin=0, lmax=lmax); f2 = nmt.NmtField(mask, None, spin=2, lmax=lmax)
    fp = nmt.NmtField(mask, None, spin=2, lmax=lmax, purify_b=True)
    fe = nmt.NmtField(mask, None, spin=2, lmax=lmax, purify_e=True)
    b = nmt.NmtBin.from_lmax_linear(lmax, 3)
    good = [(5, 3, 2), (11, 11, 11), (1, 1, 0), (8, 8, 0), (-1, -1, -1), (0, 99, 99)]
    bad = [(5, 0, 2), (5, -1, 2), (5, 3, -1), (5, 6, 2), (12, 3, 2), (5, 3, 12), (40, 3, 2), (12, 12, 12), (5, 13, 1)]
    for lt, le, dl in good:
        c.case(kind='from_fields accepts', l_toeplitz=lt, l_exact=le, dl_band=dl)
        w = nmt.NmtWorkspace.from_fields(f0, f2, b, l_toeplitz=lt, l_exact=le, dl_band=dl)
        M = w.get_coupling_matrix().reshape(lmax + 1, 2, lmax + 1, 2)[:, 0, :, 0] / (2 * np.arange(lmax + 1) + 1.)
        W = nmt.NmtWorkspace.from_fields(f0, f2, b).get_coupling_matrix().reshape(lmax + 1, 2, lmax + 1, 2)[:, 0, :, 0] / (2 * np.arange(lmax + 1) + 1.)
        if lt > 0:
            W = toep(W, lmax, lt, le, dl)
        c.close('from_fields uses the parameters given', M, W, 1e-8)
        cw = nmt.NmtCovarianceWorkspace.from_fields(f0, f2, f0, f2, l_toeplitz=lt, l_exact=le, dl_band=dl)
        c.true('covariance workspace accepts', cw.wsp is not None)
    for lt, le, dl in bad:
        c.case(kind='from_fields refuses', l_toeplitz=lt, l_exact=le, dl_band=dl)
        c.raises('inconsistent parameters are refused', lambda: nmt.NmtWorkspace.from_fields(f0, f2, b, l_toeplitz=lt, l_exact=le, dl_band=dl), ValueError)
        c.raises('inconsistent parameters are refused (covariance)', lambda: nmt.NmtCovarianceWorkspace.from_fields(f0, f2, f0, f2, l_toeplitz=lt, l_exact=le, dl_band=dl), ValueError)
    for fa, fb in ((fp, fp), (f0, fp), (fp, f0), (fe, f2), (f2, fe)):
        c.case(kind='purified fields refused')
        c.raises('purified fields are refused', lambda: nmt.NmtWorkspace.from_fields(fa, fb, b, l_toeplitz=5, l_exact=3, dl_band=2), ValueError)
    fan = nmt.NmtField(mask, None, spin=2, lmax=lmax, mask_22=mask * .5, mask_12=mask * 0) if True else None
    c.case(kind='anisotropic refused')
    c.raises('anisotropic masks are refused', lambda: nmt.NmtWorkspace.from_fields(fan, f2, b, l_toeplitz=5, l_exact=3, dl_band=2), NotImplementedError)
