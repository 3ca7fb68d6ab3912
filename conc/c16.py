"""Flat-sky coupling matrix, coupling and decoupling."""
import ctypes
import numpy as np
import pymaster as nmt
from pymaster import nmtlib as lib
from .clib import *
from .flat import *

PPD = ctypes.POINTER(PD)


def ptr(w):
    return ctypes.c_void_p(int(w.this))


_off = {}


def binned(w):
    """binned matrix of a workspace, read through the decoupling of the C library (M = inverse of the solve)"""
    nc, nb = w.wsp.ncls, w.wsp.bin.n_bands
    out = []
    for k in range(nc * nb):
        e = np.zeros((nb, nc)); e.ravel()[k] = 1
        out.append(w.decouple_cell(e.T.copy()).T.ravel())
    return np.array(out).T


quick = fn('nmt_couple_cl_l_flat_quick', None, ctypes.c_void_p, I, PD, PPD, PPD)


def run_case(c, rng, P, spins, pures, teb, beams=True, ens=False):
    s1, s2 = spins
    l0, lf = rand_bands(rng, P, 5)
    cx, cy = rand_cuts(rng, P) if rng.integers(0, 2) else ([1., -1.], [1., -1.])
    m1, m2 = rand_mask(rng, P), rand_mask(rng, P)
    same = rng.integers(0, 3) == 0 and s1 == s2
    bm, bf = [], []
    for i in range(2):
        if beams and rng.integers(0, 2):
            n = int(rng.integers(2, 8)); l = np.sort(rng.uniform(0, 1.3 * P.k.max(), n)); l[0] = 0; v = rng.uniform(.3, 2, n)
            bm.append(np.array([l, v])); bf.append(lambda k, l=l, v=v: interp(l, v, k))
        else:
            bm.append(None); bf.append(lambda k: np.ones_like(k))
    if same: m2, bm[1], bf[1] = m1, bm[0], bf[0]; pures = (pures[0], pures[0])
    c.case(kind='coupling matrix', nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, spins=spins, pure=pures, teb=teb, l0=l0, lf=lf, cut_x=cx, cut_y=cy,
           mask1=m1, mask2=m2, beams=bm, same=bool(same))
    f1 = nmt.NmtFieldFlat(P.lx, P.ly, m1, None, spin=s1, beam=bm[0], purify_e=pures[0][0], purify_b=pures[0][1])
    f2 = f1 if same else nmt.NmtFieldFlat(P.lx, P.ly, m2, None, spin=s2, beam=bm[1], purify_e=pures[1][0], purify_b=pures[1][1])
    b = nmt.NmtBinFlat(l0, lf)
    w = nmt.NmtWorkspaceFlat()
    M = mcm(P, m1, m2, s1, s2, pures[0], pures[1], bf[0], bf[1], l0, lf, cx, cy, teb)
    nb, nc = M.shape[:2]
    A = M.reshape(nb * nc, nb * nc)
    empty = np.any(np.abs(A).sum(axis=1) < 1e-13 * np.abs(A).max())
    w.compute_coupling_matrix(f1, f2, b, ell_cut_x=cx, ell_cut_y=cy, is_teb=teb)
    c.true('number of spectra', w.wsp.ncls == nc)
    # unbinned matrix through coupling, binned through quick coupling / decoupling
    d, nr = P.rings()
    ne = int(rng.integers(2, 9)); ells = np.sort(rng.uniform(0, 1.2 * P.k.max(), ne))
    cl = rng.normal(size=(nc, ne))
    ok = False
    for idx in ((P.k * (1. / d)).astype(int), (P.k / d).astype(int), np.floor(P.k / d + 1e-9).astype(int), np.floor(P.k / d - 1e-9).astype(int)):
        ring = np.where((idx >= nr) | (idx < 0), -1, idx)
        U = mcm(P, m1, m2, s1, s2, pures[0], pures[1], bf[0], bf[1], l0, lf, cx, cy, teb, ring=(ring, nr))
        av = np.zeros((nr, nc))
        for r in range(nr):
            if np.any(ring == r):
                av[r] = [np.mean(interp(ells, x, P.k[ring == r])) for x in cl]
        want = np.einsum('iajb,jb->ai', U, av)
        got = w.couple_cell(ells, cl)
        if np.abs(got - want).max() <= 1e-9 * np.abs(U).max() * nr * nc * np.abs(cl).max():
            ok = True; break
    c.true('coupling a theory spectrum: ring-averaged matrix', ok, 'got %s, expected %s' % (got, want))
    # quick (binned) coupling
    av = np.zeros((nb, nc))
    sel = np.where(P.sel(cx, cy), P.band(l0, lf), -1)
    for r in range(nb):
        if np.any(sel == r): av[r] = [np.mean(interp(ells, x, P.k[sel == r])) for x in cl]
    o = np.full((nc, nb), np.nan); q = [x.copy() for x in cl]
    quick(ptr(w.wsp), ne, dp(ells), (PD * nc)(*[dp(x) for x in q]), (PD * nc)(*[dp(x) for x in o]))
    c.close('binned matrix: average of mask power over the selected modes', o, np.einsum('iajb,jb->ai', M, av), 1e-9, scale=np.abs(M).max() * nb * nc * np.abs(cl).max())
    if not empty and np.linalg.cond(A) < 1e7:
        data, noise, bias = rng.normal(size=(3, nc, nb))
        got = w.decouple_cell(data, cl_noise=noise, cl_bias=bias)
        x = got.T.ravel()
        res = A @ x - (data - noise - bias).T.ravel()
        c.true('decoupling solves the binned system', np.abs(res).max() <= 1e-8 * (np.abs(A).max() * np.abs(x).max() + 10), np.abs(res).max())
        c.close('decoupling', got, np.linalg.solve(A, (data - noise - bias).T.ravel()).reshape(nb, nc).T, 1e-7 )
        c.close('without noise and bias', w.decouple_cell(data), np.linalg.solve(A, data.T.ravel()).reshape(nb, nc).T, 1e-7)
    if ens:
        for (a, bb) in [(int(rng.integers(0, 2 if s1 else 1)), int(rng.integers(0, 2 if s2 else 1)))]:
            for j in range(nb):
                inb = P.band(l0, lf) == j
                E = ensemble(P, m1, m2, s1, s2, l0, lf, cx, cy, a, bb, inb)
                n2 = 2 if s2 else 1
                c.close('ensemble mean of the estimator', M[:, :, j, a * n2 + bb].T, E, 1e-9, scale=np.abs(M).max())
    return f1, f2, b, w


def run(c):
    rng = c.rng
    K = 0
    P0 = lambda odd=None, big=9: rand_patch(rng, odd, big)
    while c.more() and K < (4000 if c.thorough else 170):
        K += 1
        t = K % 6
        if t == 0:
            sp = [(0, 0), (0, 2), (2, 0), (1, 2), (2, 2), (3, 3), (0, 1)][K // 6 % 7]
            run_case(c, rng, P0(True, 8), sp, ((0, 0), (0, 0)), False, beams=False, ens=True)
        elif t == 1:
            run_case(c, rng, P0(), (0, int(rng.integers(1, 4))), ((0, 0), (0, 0)), True)
        elif t == 2:
            sp = [(2, 2), (0, 2), (2, 0), (2, 2), (1, 2), (2, 3)][K // 6 % 6]
            pu = tuple(tuple(int(x) for x in rng.integers(0, 2, 2)) if s == 2 else (0, 0) for s in sp)
            run_case(c, rng, P0(), sp, pu, False)
        elif t == 3 and K % 2:
            run_case(c, rng, P0(), (0, 2), ((0, 0), tuple(int(x) for x in rng.integers(0, 2, 2))), True)
        else:
            sp = tuple(int(x) for x in rng.integers(0, 4, 2))
            run_case(c, rng, P0(), sp, ((0, 0), (0, 0)), False)
    # refusals and the full pipeline
    for K in range(40 if c.thorough else 12):
        P = P0(); l0, lf = rand_bands(rng, P, 4)
        while np.bincount(P.band(l0, lf)[P.band(l0, lf) >= 0], minlength=len(l0)).min() == 0:
            l0, lf = rand_bands(rng, P, 4)
        m = rand_mask(rng, P) + .2
        b = nmt.NmtBinFlat(l0, lf)
        s = int(rng.integers(0, 3)); mp = rng.normal(size=(2 if s else 1, P.ny, P.nx))
        c.case(kind='pipeline', nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, spin=s, l0=l0, lf=lf)
        f = nmt.NmtFieldFlat(P.lx, P.ly, m, mp, spin=s)
        f0 = nmt.NmtFieldFlat(P.lx, P.ly, m, mp[:1], spin=0)
        w = nmt.NmtWorkspaceFlat(); w.compute_coupling_matrix(f0, f, b)
        one = lambda k: np.ones_like(k)
        M = mcm(P, m, m, 0, s, (0, 0), (0, 0), one, one, l0, lf, [1, -1], [1, -1])
        A = M.reshape(M.shape[0] * M.shape[1], -1)
        nc = len(mp); noise = rng.normal(size=(nc, len(l0)))
        if np.linalg.cond(A) < 1e7:
            d = nmt.compute_coupled_cell_flat(f0, f, b)
            want = np.linalg.solve(A, (d - noise).T.ravel()).reshape(len(l0), nc).T
            for ws in (None, w):
                got = nmt.compute_full_master_flat(f0, f, b, cl_noise=noise, workspace=ws)
                c.close('full pipeline', got, want, 1e-7)
        Q = Patch(P.nx, P.ny, P.lx * 1.5, P.ly)
        g = nmt.NmtFieldFlat(Q.lx, Q.ly, m, mp, spin=s)
        h = nmt.NmtFieldFlat(P.lx, P.ly, np.ones((P.ny + 1, P.nx)), np.ones((1, P.ny + 1, P.nx)))
        b2 = nmt.NmtBinFlat(np.append(l0, lf[-1]), np.append(lf, lf[-1] * 2))
        t = nmt.NmtWorkspaceFlat()
        c.raises('different patches are refused', lambda: t.compute_coupling_matrix(f, g, b))
        c.raises('different pixels are refused', lambda: t.compute_coupling_matrix(f, h, b))
        c.raises('a workspace of another patch is refused', lambda: nmt.compute_full_master_flat(g, g, b, workspace=w) if s == 0 else nmt.compute_full_master_flat(nmt.NmtFieldFlat(Q.lx, Q.ly, m, mp[:1]), g, b, workspace=w))
        c.raises('a workspace with other bands is refused', lambda: nmt.compute_full_master_flat(f0, f, b2, workspace=w))
        if s: c.raises('a workspace for other spins is refused', lambda: nmt.compute_full_master_flat(f0, f0, b, workspace=w))
        if s: c.raises('a workspace for other spins is refused (2)', lambda: nmt.compute_full_master_flat(f, f, b, workspace=w))
        c.raises('TEB needs spin 0 first', lambda: t.compute_coupling_matrix(f, f0, b, is_teb=True) if s else t.compute_coupling_matrix(f0, f0, b, is_teb=True))
        c.raises('wrong number of bands', lambda: w.decouple_cell(np.zeros((nc, len(l0) + 1))))
        c.raises('wrong number of spectra', lambda: w.decouple_cell(np.zeros((nc + 1, len(l0)))))
        c.raises('wrong noise', lambda: w.decouple_cell(np.zeros((nc, len(l0))), cl_noise=np.zeros((nc, len(l0) + 1))))
        c.raises('wrong bias', lambda: w.decouple_cell(np.zeros((nc, len(l0))), cl_bias=np.zeros((nc + 1, len(l0)))))
        c.raises('wrong theory', lambda: w.couple_cell(np.arange(5.), np.zeros((nc, 4))))
