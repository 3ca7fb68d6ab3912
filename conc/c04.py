"""The unbinned mode-coupling matrix against its definition."""
import numpy as np
import healpy as hp
import pymaster as nmt
from pymaster import nmtlib as lib
from . import orc


def get(w, n):
    return lib.get_mcm(w, n * n).reshape(n, n)


def matrix(s1, s2, lmax, pcl, p=(0, 0, 0, 0), teb=0, tp=(-1, -1, -1), beam=None, bins=None, norm=0, w2=0.):
    b = bins or nmt.NmtBin.from_lmax_linear(lmax, max(1, lmax // 4))
    bm = np.ones(lmax + 1) if beam is None else beam
    w = lib.comp_coupling_matrix(s1, s2, lmax, len(pcl) - 1, *p, norm, w2, bm, bm, pcl, b.bin, teb, *tp)
    n = w.ncls * (lmax + 1)
    M = get(w, n)
    return w, M, b


def rand_pcl(rng, L):
    k = rng.integers(0, 4)
    p = rng.normal(size=L + 1)
    if k == 0: p = np.abs(p)
    if k == 1: p = np.zeros(L + 1); p[rng.integers(0, L + 1)] = 1.
    if k == 2: p = np.abs(p) / (1. + np.arange(L + 1)) ** 2
    return p


def run(c):
    rng = c.rng
    first = [(0, 0, 0), (0, 2, 0), (2, 0, 0), (2, 2, 0), (1, 2, 0), (2, 1, 0), (0, 2, 1), (0, 1, 0), (3, 3, 0), (0, 1, 1), (1, 1, 0), (0, 3, 1), (3, 0, 0), (3, 2, 0)]
    pures = [(0, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (0, 1, 0, 1), (1, 0, 0, 1), (1, 1, 1, 1), (1, 0, 1, 0), (0, 1, 1, 0), (1, 1, 0, 1), (0, 0, 1, 1), (0, 0, 1, 0)]
    todo = [(s, (0, 0, 0, 0)) for s in first] + [((2, 2, 0), p) for p in pures] + [((0, 2, 0), p) for p in pures if not p[0] and not p[1]] + \
           [((2, 0, 0), p) for p in pures if not p[2] and not p[3]] + [((0, 2, 1), p) for p in pures if not p[0] and not p[1]]
    it = 0
    while c.more() and it < (600 if c.thorough else 110):
        (s1, s2, teb), p = todo[it] if it < len(todo) else todo[rng.integers(0, len(todo))]
        it += 1
        lmax = int(rng.integers(4, 17))
        L1 = int(rng.integers(2, 24)) if it % 3 else lmax
        pcl = rand_pcl(rng, L1)
        c.case(kind='nmt_compute_coupling_matrix', spin1=s1, spin2=s2, teb=teb, pure=p, lmax=lmax, lmax_mask=L1, pcl=pcl)
        w, M, b = matrix(s1, s2, lmax, pcl, p, teb)
        W = orc.mcm(pcl, s1, s2, lmax, *p, teb=teb)
        if not c.true('number of spectra', w.ncls == W.shape[0] // (lmax + 1)): continue
        sc = np.max(np.abs(pcl)) * (2 * lmax + 1)
        if not c.close('unbinned matrix equals the analytic sum', M, W, 1e-9, scale=sc): break
        S = max(s1, s2)
        if S and not teb:
            n = w.ncls
            c.true('no contribution below the spin', not M[:n * S].any() and not M[:, :n * S].any())
        lib.workspace_free(w)
    # higher multipoles: single elements
    for it in range(6):
        if not c.more(): break
        lmax = int(rng.integers(40, 70)); L1 = int(rng.integers(30, 140))
        s1, s2 = [(0, 0), (0, 2), (2, 2), (2, 2), (1, 3), (0, 0)][it]
        pcl = rand_pcl(rng, L1)
        c.case(kind='large multipoles', spin1=s1, spin2=s2, lmax=lmax, lmax_mask=L1, pcl=pcl)
        w, M, b = matrix(s1, s2, lmax, pcl)
        n = w.ncls
        sb = s1 or s2
        for _ in range(12):
            l2, l3 = (int(x) for x in rng.integers(max(s1, s2), lmax + 1, 2))
            ls = np.arange(abs(l2 - l3), min(L1, l2 + l3) + 1)
            f = (2 * l3 + 1) * (-1) ** (s1 + s2)
            wt = pcl[ls] * (2 * ls + 1) / (4 * np.pi)
            wa = np.array([orc.w3j(int(l), l2, l3, 0, s1, -s1) for l in ls])
            wb = np.array([orc.w3j(int(l), l2, l3, 0, s2, -s2) for l in ls])
            ev = (ls + l2 + l3) % 2 == 0
            if n < 4:
                c.close('element at large l', M[n * l2, n * l3], f * np.sum(wt * wa * wb), 1e-8, scale=np.max(np.abs(pcl)) * 10)
            else:
                c.close('element at large l (++)', M[n * l2, n * l3], f * np.sum((wt * wa * wb)[ev]), 1e-8, scale=np.max(np.abs(pcl)) * 10)
                c.close('element at large l (--)', M[n * l2 + 1, n * l3 + 2], -f * np.sum((wt * wa * wb)[~ev]), 1e-8, scale=np.max(np.abs(pcl)) * 10)
        lib.workspace_free(w)
    # fields
    nside = 8
    for it in range(30 if c.thorough else 8):
        if not c.more(): break
        m1, m2 = rng.uniform(0, 1, (2, 12 * nside ** 2))
        lmax = int(rng.integers(6, 15)); lm = int(rng.integers(4, 3 * nside))
        s1, s2 = [(0, 0), (0, 2), (2, 2), (2, 0), (1, 2)][it % 5]
        same = it % 4 == 3
        if same: s2 = s1
        bm1, bm2 = rng.uniform(.5, 1, (2, lmax + 1))
        pf = tuple(int(x) for x in rng.integers(0, 2, 2)) if s1 == 2 and s2 == 2 else (0, 0)
        c.case(kind='NmtWorkspace.from_fields', nside=nside, seed_masks=[m1[:6], m2[:6]], spin1=s1, spin2=s2, lmax=lmax, lmax_mask=lm, purify_b=pf, same=same)
        b = nmt.NmtBin.from_lmax_linear(lmax, 3)
        f1 = nmt.NmtField(m1, None, spin=s1, beam=bm1, lmax=lmax, lmax_mask=lm)
        f2 = f1 if same else nmt.NmtField(m2, None, spin=s2, beam=bm2, lmax=lmax, lmax_mask=lm)
        w = nmt.NmtWorkspace.from_fields(f1, f2, b)
        a1 = hp.map2alm(m1, lmax=lm, iter=f1.n_iter_mask if hasattr(f1, 'n_iter_mask') else 3)
        a2 = a1 if same else hp.map2alm(m2, lmax=lm, iter=3)
        pcl = hp.alm2cl(a1, a2)
        W = orc.mcm(pcl, s1, s2, lmax)
        c.close('workspace matrix equals the analytic sum over the mask pseudo-spectrum', w.get_coupling_matrix(), W, 1e-7, scale=np.abs(W).max())

    # anisotropic weights (and, as a cross-check, isotropic ones) against the ensemble mean over explicit modes
    cases = [(2, 2, 1, 1, 0), (2, 2, 1, 0, 0), (2, 2, 0, 1, 0), (0, 2, 0, 1, 0), (2, 0, 1, 0, 0), (1, 2, 1, 1, 0), (1, 1, 1, 1, 1), (2, 1, 0, 1, 0), (2, 1, 1, 0, 0), (0, 1, 0, 1, 0),
             (1, 0, 1, 0, 0), (2, 2, 0, 0, 0), (0, 0, 0, 0, 0), (0, 1, 0, 0, 0), (3, 3, 1, 1, 0), (0, 3, 0, 1, 0)]
    for it in range(len(cases) * (4 if c.thorough else 1)):
        if not c.more(): break
        s1, s2, a1, a2, same = cases[it % len(cases)]
        lmax = int(rng.integers(3, 6)) if it else 4
        L1 = int(rng.integers(2 * max(s1, s2), 9))
        c.case(kind='anisotropic weights', spin1=s1, spin2=s2, aniso1=a1, aniso2=a2, lmax=lmax, lmax_mask=L1, it=it)
        p, W = orc.ensemble_case(rng, s1, s2, a1, a2, lmax, L1, same)
        b = nmt.NmtBin.from_lmax_linear(lmax, 1)
        o = np.ones(lmax + 1)
        if a1 or a2:
            w = lib.comp_coupling_matrix_anisotropic(s1, s2, a1, a2, lmax, L1, *[p[k] for k in '00 0e 0b e0 b0 ee eb be bb'.split()], o, o, b.bin, 0, 0.)
        else:
            w = lib.comp_coupling_matrix(s1, s2, lmax, L1, 0, 0, 0, 0, 0, 0., o, o, p['00'], b.bin, 0, -1, -1, -1)
        n = w.ncls * (lmax + 1)
        c.close('matrix equals the ensemble mean of the pseudo-spectra', get(w, n), W, 1e-9, scale=np.abs(W).max())
        lib.workspace_free(w)
