"""Flat-sky Gaussian covariance against the analytic contraction."""
import numpy as np
import pymaster as nmt
from pymaster import nmtlib as lib
from .flat import *
from .c09 import kern, pick
from .c16 import binned
import itertools


def coeffs(P, ma, mb, mc, md, l0, lf):
    """coefficients of the pairs (ac, bd): kernels (bands x bands)"""
    ft = lambda m: np.fft.fft2(m) * P.norm
    pw = (ft(ma * mc) * np.conj(ft(mb * md))).real
    band = P.band(l0, lf)
    nb = len(l0)
    K = {k: np.zeros((nb, nb)) for k in ('k00', 'k02', 'kp', 'km')}
    iy2, ix2 = np.mgrid[:P.ny, :P.nx]
    for iy in range(P.ny):
        for ix in range(P.nx):
            i = band[iy, ix]
            if i < 0: continue
            q = pw[(iy - iy2) % P.ny, (ix - ix2) % P.nx]
            d = 2 * (P.phi[iy, ix] - P.phi)
            for k, w in (('k00', q), ('k02', q * np.cos(d)), ('kp', q * np.cos(d) ** 2), ('km', q * np.sin(d) ** 2)):
                np.add.at(K[k][i], band[band >= 0], w[band >= 0])
    n = np.array([np.sum(band == i) for i in range(nb)])
    f = 4 * np.pi ** 2 / (P.lx * P.ly) ** 2
    nn = np.outer(n, n)
    return {k: np.where(nn > 0, v * f / np.maximum(nn, 1), 0) for k, v in K.items()}


def contract(Ks, nm, cac, cad, cbc, cbd):
    na, nb, nc, nd = nm
    n = Ks[0]['k00'].shape[0]
    out = np.zeros((n, na * nb, n, nc * nd))
    sym = lambda x, y: .5 * (np.outer(x, y) + np.outer(y, x))
    sp = lambda c, k: np.asarray(c).reshape(-1, k, n)
    cac, cad, cbc, cbd = sp(cac, nc), sp(cad, nd), sp(cbc, nc), sp(cbd, nd)
    for a, b, c, d in np.ndindex(na, nb, nc, nd):
        for ap, bp, cp, dp_ in np.ndindex(na, nb, nc, nd):
            k = pick(Ks[0], kern(na, nc, a, ap, c, cp), kern(nb, nd, b, bp, d, dp_))
            if k is not None: out[:, a * nb + b, :, c * nd + d] += k * sym(cac[ap, cp], cbd[bp, dp_])
            k = pick(Ks[1], kern(na, nd, a, ap, d, dp_), kern(nb, nc, b, bp, c, cp))
            if k is not None: out[:, a * nb + b, :, c * nd + d] += k * sym(cad[ap, dp_], cbc[bp, cp])
    return out.reshape(n * na * nb, n * nc * nd)


def nice(rng, P, nmax):
    while True:
        l0, lf = rand_bands(rng, P, nmax)
        bd = P.band(l0, lf)
        if all(np.any(bd == i) for i in range(len(l0))): return l0, lf


def run(c):
    rng = c.rng
    its = 0
    allsp = list(itertools.product((0, 2), repeat=4))
    while c.more() and its < (600 if c.thorough else 90):
        sp = allsp[its % 16]
        its += 1
        P = rand_patch(rng, None, 9)
        l0, lf = nice(rng, P, 4)
        nb = len(l0)
        masks = [rand_mask(rng, P) for _ in range(4)]
        if its % 5 == 0: masks = [masks[0]] * 4
        if its % 5 == 1: masks[2:] = masks[:2]
        flds = [nmt.NmtFieldFlat(P.lx, P.ly, m, None, spin=s) for m, s in zip(masks, sp)]
        b = nmt.NmtBinFlat(l0, lf)
        nm = [2 if s else 1 for s in sp]
        # bandpowers from spectra sampled anywhere, interpolated at the band centres
        ne = int(rng.integers(2, 9)); larr = np.sort(rng.uniform(0, 1.2 * P.k.max(), ne))
        cl = lambda i, j: rng.normal(size=(nm[i] * nm[j], ne))
        ac, ad, bc, bd = cl(0, 2), cl(0, 3), cl(1, 2), cl(1, 3)
        c.case(nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, spins=sp, l0=l0, lf=lf, masks=masks, larr=larr, cl_ac=ac, cl_ad=ad, cl_bc=bc, cl_bd=bd)
        w = []
        for i, j in ((0, 1), (2, 3)):
            x = nmt.NmtWorkspaceFlat()
            x.compute_coupling_matrix(flds[i], flds[j], b)
            w.append(x)
        one = lambda k: np.ones_like(k)
        Ms = [mcm(P, masks[i], masks[i + 1], sp[i], sp[i + 1], (0, 0), (0, 0), one, one, l0, lf, [1, -1], [1, -1]) for i in (0, 2)]
        As = [M.reshape(M.shape[0] * M.shape[1], -1) for M in Ms]
        cond = max(np.linalg.cond(A) for A in As)
        if cond > 1e6: continue
        cw = nmt.NmtCovarianceWorkspaceFlat()
        if its % 5 == 1 and rng.integers(0, 2): cw.compute_coupling_coefficients(flds[0], flds[1], b)
        else: cw.compute_coupling_coefficients(flds[0], flds[1], b, flds[2], flds[3], b if rng.integers(0, 2) else None)
        got = nmt.gaussian_covariance_flat(cw, *sp, larr, ac, ad, bc, bd, w[0], w[1])
        Ks = [coeffs(P, masks[0], masks[1], masks[2], masks[3], l0, lf), coeffs(P, masks[0], masks[1], masks[3], masks[2], l0, lf)]
        mid = .5 * (l0 + lf)
        bin_ = lambda x: np.array([np.interp(mid, larr, y) for y in x])
        C = contract(Ks, nm, bin_(ac), bin_(ad), bin_(bc), bin_(bd))
        want = np.linalg.solve(As[0], np.linalg.solve(As[1], C.T).T)
        s = np.abs(np.linalg.inv(As[0])).max() * np.abs(np.linalg.inv(As[1])).max() * max(np.abs(C).max(), np.abs(Ks[0]['k00']).max())
        c.close('covariance equals the analytic formula', got, want, 1e-9, scale=s)
        # exchange of the pairs
        cx = nmt.NmtCovarianceWorkspaceFlat(); cx.compute_coupling_coefficients(flds[2], flds[3], b, flds[0], flds[1], b)
        T = lambda x, i, j: x.reshape(nm[i], nm[j], ne).transpose(1, 0, 2).reshape(-1, ne).copy()
        g2 = nmt.gaussian_covariance_flat(cx, sp[2], sp[3], sp[0], sp[1], larr, T(ac, 0, 2), T(bc, 1, 2), T(ad, 0, 3), T(bd, 1, 3), w[1], w[0])
        c.close('exchanging the two pairs transposes', g2, got.T, 1e-9, scale=s)
        if sp[:2] == sp[2:] and its % 5 in (0, 1):
            g3 = nmt.gaussian_covariance_flat(cw, *sp, larr, ac, ad, bc, bd, w[0])
            c.close('second workspace defaults to the first', g3, got, 1e-12, scale=s)
        if its % 6 == 0:
            # inconsistent inputs
            Q = Patch(P.nx, P.ny, P.lx * 1.5, P.ly)
            R = Patch(P.nx, P.ny, P.lx, P.ly * .5)
            g = nmt.NmtFieldFlat(Q.lx, Q.ly, masks[2], None, spin=sp[2]); r = nmt.NmtFieldFlat(R.lx, R.ly, masks[2], None, spin=sp[3])
            h = nmt.NmtFieldFlat(P.lx, P.ly, np.ones((P.ny + 1, P.nx)), None, spin=sp[3])
            e0, e1 = l0.copy(), lf.copy(); e1[-1] = e1[-1] * 1.3
            b2 = nmt.NmtBinFlat(e0, e1); b3 = nmt.NmtBinFlat(np.append(l0, lf[-1]), np.append(lf, lf[-1] * 2))
            t = nmt.NmtCovarianceWorkspaceFlat()
            F = flds
            for nme, a in (('patch', (F[0], F[1], b, g, F[3], b)), ('patch', (F[0], F[1], b, F[2], r, b)), ('patch', (F[0], r, b)), ('pixels', (F[0], F[1], b, F[2], h, b)), ('pixels', (F[0], h, b)),
                           ('bands', (F[0], F[1], b, F[2], F[3], b2)), ('bands', (F[0], F[1], b, F[2], F[3], b3))):
                c.raises('different %s are refused' % nme, lambda: t.compute_coupling_coefficients(*a))
            for bb in (b2, b3):
                w2 = nmt.NmtWorkspaceFlat(); w2.compute_coupling_matrix(F[2], F[3], bb) if all(np.any(P.band(np.append(l0, lf[-1]) if bb is b3 else e0, np.append(lf, 2 * lf[-1]) if bb is b3 else e1) == k) for k in range(bb.get_n_bands())) else None
                if w2.wsp is not None:
                    c.raises('workspaces with other bands are refused', lambda: nmt.gaussian_covariance_flat(cw, *sp, larr, ac, ad, bc, bd, w[0], w2))
            for k in range(4):
                s2 = list(sp); s2[k] = 2 - s2[k]
                c.raises('other spins are refused', lambda: nmt.gaussian_covariance_flat(cw, *s2, larr, ac, ad, bc, bd, w[0], w[1]))
            for k in range(4):
                cs = [ac, ad, bc, bd]; cs[k] = cs[k][:, :-1]
                c.raises('short spectra are refused', lambda: nmt.gaussian_covariance_flat(cw, *sp, larr, *cs, w[0], w[1]))
                cs = [ac, ad, bc, bd]; cs[k] = np.concatenate([cs[k], cs[k][:1]])
                c.raises('extra spectra are refused', lambda: nmt.gaussian_covariance_flat(cw, *sp, larr, *cs, w[0], w[1]))
            c.close('still usable after refusals', nmt.gaussian_covariance_flat(cw, *sp, larr, ac, ad, bc, bd, w[0], w[1]), got, 1e-13, scale=s)
