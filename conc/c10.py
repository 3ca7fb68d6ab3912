"""Coefficients of covariance workspaces, read out through coupled covariances of unit spectra."""
import numpy as np
import warnings
import pymaster as nmt
from pymaster import nmtlib as lib
from . import orc
from .c04 import rand_pcl
from .c05 import toep
from .c09 import coeffs, masks_pcl, refusals


def unit_wsp(s1, s2, lmax):
    b = nmt.NmtBin(ells=np.arange(lmax + 1), bpws=np.arange(lmax + 1) * 0, weights=np.ones(lmax + 1), lmax=lmax)
    w = nmt.NmtWorkspace()
    z = np.zeros(2); z[0] = 4 * np.pi
    o = np.ones(lmax + 1)
    w.wsp = lib.comp_coupling_matrix(s1, s2, lmax, 1, 0, 0, 0, 0, 0, 0., o, o, z, b.bin, 0, -1, -1, -1)
    w.has_unbinned = True
    return w


def read(cw, lmax, spin0=False):
    """stored coefficients from coupled covariances"""
    o = np.ones((1, lmax + 1)); z = o * 0
    w00 = unit_wsp(0, 0, lmax)
    out = [{}, {}]
    g = lambda *a: nmt.gaussian_covariance(*a, coupled=True)
    for k in (0, 1):
        ac, ad = (o, z) if k == 0 else (z, o)
        out[k]['k00'] = g(cw, 0, 0, 0, 0, ac, ad, ad, ac, w00)
        if spin0: continue
        w02, w20, w22 = unit_wsp(0, 2, lmax), unit_wsp(2, 0, lmax), unit_wsp(2, 2, lmax)
        E2 = np.concatenate([o, z]); E4 = np.concatenate([o, z, z, z]); Z2, Z4 = E2 * 0, E4 * 0
        n = lmax + 1
        # (0,2)x(0,2): ac = TT, ad = TE, bc = ET, bd = EE
        if k == 0:
            X = g(cw, 0, 2, 0, 2, o, Z2, Z2, E4, w02)
        else:
            # ad = TT, bc = EE  needs fields (0,2)x(2,0)
            X = g(cw, 0, 2, 2, 0, Z2, o, E4, Z2, w02, w20)
        out[k]['k02'] = X.reshape(n, 2, n, 2)[:, 0, :, 0]
        X = lambda e: g(cw, 2, 2, 2, 2, *((e, Z4, Z4, e) if k == 0 else (Z4, e, e, Z4)), w22).reshape(n, 4, n, 4)
        out[k]['kp'] = X(E4)[:, 0, :, 0]
        # EE covariance from EB spectra through the minus coefficient
        out[k]['km'] = X(np.concatenate([z, o, z, z]))[:, 0, :, 0]
    return out


def run(c):
    rng = c.rng
    warnings.simplefilter('ignore')
    for it in range(250 if c.thorough else 60):
        if not c.more(): break
        lmax = int(rng.integers(4, 13)); L1 = int(rng.integers(2, 20))
        p1, p2 = rand_pcl(rng, L1), rand_pcl(rng, L1)
        s0 = it % 4 == 3
        tp = (-1, -1, -1)
        if it % 5 == 4:
            lt = int(rng.integers(2, lmax)); tp = (lt, int(rng.integers(1, lt + 1)), int(rng.integers(0, lmax)))
            p1, p2 = np.abs(p1) + .3, np.abs(p2) + .3
        c.case(kind='nmt_covar_workspace_init', lmax=lmax, lmax_mask=L1, spin0_only=s0, toeplitz=tp, p1122=p1, p1221=p2)
        cw = nmt.NmtCovarianceWorkspace()
        cw.wsp = lib.covar_workspace_init_py(p1, p2, lmax, L1, *tp, int(s0))
        K = coeffs(p1, p2, lmax, s0)
        G = read(cw, lmax, s0)
        for i, nm in ((0, '11x22'), (1, '12x21')):
            for k in K[i]:
                W = K[i][k]
                if tp[0] > 0:
                    d = np.abs(np.diag(W))
                    if d[2 if k != 'k00' else 0:].min() < 1e-6: continue
                    W = toep(W, lmax, *tp)
                c.close('coefficient %s of %s' % (k, nm), G[i][k], W, 1e-9, scale=max(np.abs(p1).max() + np.abs(p2).max(), np.abs(W).max()))
        if c.failures: return
    # from fields: which masks enter which product
    ns = 4
    for it in range(12 if c.thorough else 5):
        if not c.more(): break
        m = rng.uniform(0, 1, (4, 12 * ns ** 2))
        lmax = int(rng.integers(4, 9)); lm = int(rng.integers(4, 11))
        fs = [nmt.NmtField(x, None, spin=int(rng.choice([0, 2])), lmax=lmax, lmax_mask=lm) for x in m]
        mode = it % 3
        c.case(kind='from_fields', lmax=lmax, lmax_mask=lm, second_pair=mode, masks=m[:, :5])
        if mode == 0:
            cw = nmt.NmtCovarianceWorkspace.from_fields(*fs); mm = m
        elif mode == 1:
            cw = nmt.NmtCovarianceWorkspace.from_fields(fs[0], fs[1]); mm = [m[0], m[1], m[0], m[1]]
        else:
            cw = nmt.NmtCovarianceWorkspace.from_fields(fs[0], fs[1], fs[2], fs[3], spin0_only=True); mm = m
        p1, p2 = masks_pcl(mm, lm, fs[0].n_iter_mask)
        K = coeffs(p1, p2, lmax, mode == 2)
        G = read(cw, lmax, mode == 2)
        for i, nm in ((0, '11x22'), (1, '12x21')):
            for k in K[i]:
                c.close('coefficient %s of %s from fields' % (k, nm), G[i][k], K[i][k], 1e-7)
    refusals(c, rng)
    # different resolutions are refused
    f1 = nmt.NmtField(np.ones(48), None, spin=0, lmax=4); f2 = nmt.NmtField(np.ones(192), None, spin=0, lmax=4)
    f3 = nmt.NmtField(np.ones(192), None, spin=0, lmax=5)
    f4 = nmt.NmtField(np.ones(192), None, spin=0, lmax=5, lmax_mask=7)
    c.case(kind='incompatible fields')
    for k in range(1, 4):
        for g, x in ((f2, f1), (f2, f3), (f3, f4)):
            a = [g] * 4; a[k] = x
            c.raises('incompatible fields are refused', lambda: nmt.NmtCovarianceWorkspace.from_fields(*a))
