"""Gaussian covariance against the analytic contraction."""
import numpy as np
import healpy as hp
import pymaster as nmt
from pymaster import nmtlib as lib
from . import orc
from .c06 import Ref, rand_bins, bin_mats, rand_matrix

NSIDE = 8


def coeffs(p1122, p1221, lmax, spin0=False):
    out = []
    for p in (p1122, p1221):
        X = orc.xis(np.asarray(p), 0, 0 if spin0 else 2, lmax, 0)
        out.append(dict(k00=X['00'][0]) if spin0 else dict(k00=X['00'][0], k02=X['0s'][0], kp=X['p'][0], km=X['m'][0]))
    return out


def kern(na, nc, ia, iap, ic, icp):
    """how two pseudo-harmonic coefficients pick up the pair of true ones: (type, sign)"""
    if na == 1 or nc == 1:
        return ('0', 1) if (ia, ic) == (iap, icp) else (None, 0)
    if (ia, ic) == (iap, icp): return ('+', 1)
    if ia == iap: return ('-', 1 if ic else -1)
    if ic == icp: return ('-', -1 if ia else 1)
    return (None, 0)


def pick(K, k1, k2):
    t = (k1[0], k2[0])
    s = k1[1] * k2[1]
    if t == ('0', '0'): return K['k00']
    if t in (('0', '+'), ('+', '0')): return K['k02']
    if t == ('+', '+'): return K['kp']
    if t == ('-', '-'): return s * K['km']
    return None


def cov_ll(Ks, nm, cac, cad, cbc, cbd, lmax):
    """unbinned covariance [la, icl_a, lb, icl_b]"""
    na, nb, nc, nd = nm
    out = np.zeros((lmax + 1, na * nb, lmax + 1, nc * nd))
    sym = lambda x, y: .5 * (np.outer(x, y) + np.outer(y, x))
    sp = lambda c, n: np.asarray(c)[:, :lmax + 1].reshape(-1, n, lmax + 1)
    cac, cad, cbc, cbd = sp(cac, nc), sp(cad, nd), sp(cbc, nc), sp(cbd, nd)
    for a, b, c, d in np.ndindex(na, nb, nc, nd):
        for ap, bp, cp, dp in np.ndindex(na, nb, nc, nd):
            k = pick(Ks[0], kern(na, nc, a, ap, c, cp), kern(nb, nd, b, bp, d, dp))
            if k is not None:
                out[:, a * nb + b, :, c * nd + d] += k * sym(cac[ap, cp], cbd[bp, dp])
            k = pick(Ks[1], kern(na, nd, a, ap, d, dp), kern(nb, nc, b, bp, c, cp))
            if k is not None:
                out[:, a * nb + b, :, c * nd + d] += k * sym(cad[ap, dp], cbc[bp, cp])
    return out


def expected(Ks, nm, cls, Ra, Rb, lcw, coupled):
    C = cov_ll(Ks, nm, *cls, lcw)
    La, Lb = Ra.lmax, Rb.lmax
    if coupled:
        fa, fb = np.zeros(lcw + 1), np.zeros(lcw + 1)
        for f, R in ((fa, Ra), (fb, Rb)):
            for i in range(R.nb):
                e = R.b.get_ell_list(i)
                f[e] = R.B[i, e] / R.b.get_weight_list(i)
        return (C * fa[:, None, None, None] * fb[None, None, :, None]).reshape((lcw + 1) * C.shape[1], -1)
    Cb = np.einsum('al,limj,bm->aibj', Ra.B, C[:La + 1, :, :Lb + 1], Rb.B).reshape(Ra.nb * Ra.n, -1)
    return Ra.solve(Rb.solve(Cb.T).T)


def masks_pcl(m, lm, nit=3):
    P = lambda x, y: hp.alm2cl(hp.map2alm(x, lmax=lm, iter=nit), hp.map2alm(y, lmax=lm, iter=nit))
    a, b, c, d = m
    return P(a * c, b * d), P(a * d, b * c)


def wsp_for(rng, spins, lmax, s=None):
    """workspace of the given spins with an arbitrary well-conditioned matrix"""
    b, nb = rand_bins(rng, lmax, wild=bool(rng.integers(0, 2)))
    one = np.ones(12 * 2 ** 2)
    f1 = nmt.NmtField(one, None, spin=spins[0], lmax=lmax, lmax_mask=5) if lmax <= 5 else None
    w = nmt.NmtWorkspace()
    z = np.zeros(3); z[0] = 4 * np.pi
    bm = np.ones(lmax + 1)
    w.wsp = lib.comp_coupling_matrix(spins[0], spins[1], lmax, 2, 0, 0, 0, 0, 0, 0., bm, bm, z, b.bin, 0, -1, -1, -1)
    w.has_unbinned = True
    n = w.wsp.ncls
    M = rand_matrix(rng, n * (lmax + 1))
    w.update_coupling_matrix(M)
    return w, Ref(M, n, lmax, b, bm)


def run(c):
    rng = c.rng
    allsp = [(a, b, x, d) for a in (0, 2) for b in (0, 2) for x in (0, 2) for d in (0, 2)]
    its = 0
    import warnings; warnings.simplefilter('ignore')
    while c.more() and its < (160 if c.thorough else 48):
        sp = allsp[its % 16] if its < 16 * 2 else allsp[rng.integers(0, 16)]
        its += 1
        lcw = int(rng.integers(5, 11))
        La = lcw if its % 3 else int(rng.integers(4, lcw + 1)); Lb = lcw if its % 2 else int(rng.integers(4, lcw + 1))
        L1 = int(rng.integers(3, 14))
        p1, p2 = rng.normal(size=(2, L1 + 1))
        nm = [2 if s else 1 for s in sp]
        wa, Ra = wsp_for(rng, sp[:2], La)
        wb, Rb = wsp_for(rng, sp[2:], Lb)
        if its % 7 == 0 and sp[:2] == sp[2:]: wb, Rb = wa, Ra
        if max(Ra.cond, Rb.cond) > 1e5: continue
        s0 = not any(sp) and its % 2 == 1
        cw = nmt.NmtCovarianceWorkspace()
        cw.wsp = lib.covar_workspace_init_py(p1, p2, lcw, L1, -1, -1, -1, int(s0))
        Ks = coeffs(p1, p2, lcw, s0)
        x = int(rng.integers(0, 3))
        cls = [rng.normal(size=(nm[i] * nm[j], lcw + 1 + x)) for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]
        c.case(kind='gaussian_covariance', spins=sp, lmax_cov=lcw, lmax_a=Ra.lmax, lmax_b=Rb.lmax, lmax_mask=L1, spin0_only=s0, p1122=p1, p1221=p2, it=its)
        args = (cw, *sp, *cls, wa, wb)
        sc = np.abs(p1).max() + np.abs(p2).max()
        want = expected(Ks, nm, cls, Ra, Rb, lcw, False)
        got = nmt.gaussian_covariance(*args)
        c.close('bandpower covariance', got, want, 1e-9 * Ra.cond * Rb.cond, scale=np.abs(want).max() + 1e-3 * sc)
        wc = expected(Ks, nm, cls, Ra, Rb, lcw, True)
        gc = nmt.gaussian_covariance(*args, coupled=True)
        c.close('coupled covariance', gc, wc, 1e-10, scale=np.abs(wc).max() + 1e-3 * sc)
        # exchanging the pairs of fields transposes the covariance
        tr = lambda x, i, j: x.reshape(nm[i], nm[j], -1).transpose(1, 0, 2).reshape(nm[i] * nm[j], -1)
        sw = nmt.gaussian_covariance(cw, sp[2], sp[3], sp[0], sp[1], tr(cls[0], 0, 2), tr(cls[2], 1, 2), tr(cls[1], 0, 3), tr(cls[3], 1, 3), wb, wa)
        c.close('exchange transposes', sw, got.T, 1e-9 * Ra.cond * Rb.cond, scale=np.abs(want).max() + 1e-3 * sc)
        if wb is wa and its % 7 == 0:
            c.close('default second workspace', nmt.gaussian_covariance(cw, *sp, *cls, wa), got, 1e-12)
        if c.failures: return
    # refusals (C10 and C21 also look at these)


def refusals(c, rng):
    lcw, L1 = 6, 6
    p1, p2 = rng.normal(size=(2, L1 + 1))
    import warnings; warnings.simplefilter('ignore')
    w00, R0 = wsp_for(rng, (0, 0), lcw)
    w02, R2 = wsp_for(rng, (0, 2), lcw)
    wbig, _ = wsp_for(rng, (0, 0), lcw + 1)
    cw = nmt.NmtCovarianceWorkspace(); cw.wsp = lib.covar_workspace_init_py(p1, p2, lcw, L1, -1, -1, -1, 0)
    cs = nmt.NmtCovarianceWorkspace(); cs.wsp = lib.covar_workspace_init_py(p1, p2, lcw, L1, -1, -1, -1, 1)
    C1, C2, C4 = rng.normal(size=(1, lcw + 2)), rng.normal(size=(2, lcw + 2)), rng.normal(size=(4, lcw + 2))
    g = nmt.gaussian_covariance
    c.case(kind='refusals')
    for cpl in (False, True):
        g(cw, 0, 0, 0, 0, C1, C1, C1, C1, w00, coupled=cpl)
        g(cw, 0, 2, 0, 2, C1, C2, C2, C4, w02, coupled=cpl)
        c.raises('multipoles beyond the stored limit', lambda: g(cw, 0, 0, 0, 0, C1, C1, C1, C1, wbig, coupled=cpl))
        c.raises('multipoles beyond the stored limit', lambda: g(cw, 0, 0, 0, 0, C1, C1, C1, C1, w00, wbig, coupled=cpl))
        c.raises('spin covariances from a spin-0 workspace', lambda: g(cs, 0, 2, 0, 2, C1, C2, C2, C4, w02, coupled=cpl))
        c.raises('spins inconsistent with the workspaces', lambda: g(cw, 0, 2, 0, 2, C1, C2, C2, C4, w00, coupled=cpl))
        c.raises('spins inconsistent with the workspaces', lambda: g(cw, 0, 0, 0, 2, C1, C2, C1, C2, w00, coupled=cpl))
        c.raises('spins inconsistent with the spectra', lambda: g(cw, 0, 2, 0, 2, C1, C1, C2, C4, w02, coupled=cpl))
        c.raises('spectra too short', lambda: g(cw, 0, 0, 0, 0, C1, C1, C1, C1[:, :lcw], w00, coupled=cpl))
        c.raises('spectra of different lengths', lambda: g(cw, 0, 0, 0, 0, C1, C1, C1, C1[:, :lcw + 1], w00, coupled=cpl))
    g(cs, 0, 0, 0, 0, C1, C1, C1, C1, w00)
    c.true('later valid calls work', True)
