"""Binning contracts on random band structures: C routines and NmtBin methods."""
import numpy as np
import pymaster as nmt
from pymaster import nmtlib as lib


def rand_bins(rng, lmax=None):
    lmax = int(lmax or rng.integers(5, 60))
    n = lmax + 1
    nb = int(rng.integers(1, max(2, n // 3)))
    bp = rng.integers(-1, nb, n)
    for b in range(nb):        # every band non-empty
        bp[rng.integers(0, n)] = b
    used = np.unique(bp[bp >= 0])
    remap = {b: i for i, b in enumerate(used)}
    bp = np.array([remap.get(b, -1) for b in bp])
    w = rng.uniform(0.05, 3, n)
    f = np.where(rng.random(n) < 0.1, -1.0, rng.uniform(0.1, 5, n)) if rng.random() < 0.6 else None
    return lmax, bp, np.arange(n), w, f


def run(c):
    rng = c.rng
    nrep = 150 if c.thorough else 40
    for it in range(nrep):
        if not c.more(): break
        lmax, bp, ells, w, f = rand_bins(rng)
        perm = rng.permutation(len(ells))
        if rng.random() < 0.3:      # entries beyond lmax are ignored
            lm = lmax - int(rng.integers(0, 3))
        else:
            lm = lmax
        keep = ells <= lm
        if any((bp[keep] == b).sum() == 0 for b in range(bp.max() + 1)):
            lm, keep = lmax, ells <= lmax
        c.case(bpws=bp, ells=ells, weights=w, f_ell=f, lmax=lm, perm=perm)
        b = nmt.NmtBin(bpws=bp[perm].astype(np.int32), ells=ells[perm].astype(np.int32), weights=w[perm], lmax=lm,
                       f_ell=None if f is None else f[perm])
        nb = bp[keep].max() + 1
        c.true('number of bands', b.get_n_bands() == nb)
        fe = np.ones(len(ells)) if f is None else np.where(f > 0, f, 1.)
        nspec = int(rng.integers(1, 4))
        cl = rng.normal(size=(nspec, lm + 1))
        want = np.zeros((nspec, nb)); leff = np.zeros(nb)
        wn = np.zeros(len(ells))
        for k in range(nb):
            m = (bp == k) & keep
            wn[m] = w[m] / w[m].sum()
            want[:, k] = (cl[:, :lm + 1][:, ells[m]] * (wn * fe)[m]).sum(axis=1)
            leff[k] = (ells * wn)[m].sum()
        got = b.bin_cell(cl)
        c.close('bin_cell is the normalised weighted average', got, want, 1e-12)
        c.close('bin_cell of a single spectrum', b.bin_cell(cl[0]), want[0], 1e-12)
        c.close('effective multipoles', b.get_effective_ells(), leff, 1e-12)
        bpv = rng.normal(size=(nspec, nb))
        ub = b.unbin_cell(bpv)
        wu = np.zeros((nspec, lm + 1))
        for l in range(lm + 1):
            if bp[l] >= 0:
                wu[:, l] = bpv[:, bp[l]] / fe[l]
        c.close('unbin_cell', ub, wu, 1e-12)
        c.close('bin(unbin(x)) = x', b.bin_cell(ub), bpv, 1e-11)
        c.close('unbin of a single spectrum', b.unbin_cell(bpv[0]), wu[0], 1e-12)
        for k in range(nb):
            sel = [p for p in perm if keep[p] and bp[p] == k]
            c.true('ell list of the band', list(b.get_ell_list(k)) == list(ells[sel]))
            c.close('weight list of the band', b.get_weight_list(k), wn[sel], 1e-12)
            c.true('nell', b.get_nell_list()[k] == len(sel))
            if k > 4: break
    # constructors
    for it in range(nrep // 2):
        if not c.more(): break
        nlb = int(rng.integers(1, 12)); lmax = int(rng.integers(nlb + 2, 80)); l2 = bool(rng.integers(0, 2))
        c.case(nlb=nlb, lmax=lmax, is_Dell=l2, ctor='from_lmax_linear')
        b = nmt.NmtBin.from_lmax_linear(lmax, nlb, is_Dell=l2)
        cl = rng.normal(size=lmax + 1)
        nb = b.get_n_bands()
        got = b.bin_cell(cl)
        l = np.arange(lmax + 1)
        f = l * (l + 1.) / (2 * np.pi) if l2 else np.ones(lmax + 1)
        want = np.array([np.mean((f * cl)[2 + k * nlb:2 + (k + 1) * nlb]) for k in range(nb)])
        c.close('linear bandpowers', got, want, 1e-12)
        c.close('linear: bin(unbin)', b.bin_cell(b.unbin_cell(want)), want, 1e-11)
        if hasattr(lib, 'bins_constant'):
            bc = lib.bins_constant(nlb, lmax, int(l2))
            n = (lmax - 1) // nlb
            o = lib.bin_cl(bc, cl.reshape(1, -1), n)
            c.close('nmt_bins_constant bandpowers', np.asarray(o).ravel()[:n],
                    [np.mean((f * cl)[2 + k * nlb:2 + (k + 1) * nlb]) for k in range(n)], 1e-12)
            lib.bins_free(bc)
    # flat-sky: unbinning is constant in each band
    for it in range(nrep // 2):
        if not c.more(): break
        nb = int(rng.integers(1, 8))
        e = np.sort(rng.uniform(2, 500, 2 * nb))
        l0, lf = e[::2].copy(), e[1::2].copy()
        if rng.random() < 0.5:
            lf[:-1] = l0[1:]
        b = nmt.NmtBinFlat(l0, lf)
        larr = rng.uniform(0, 520, 60)
        if rng.random() < 0.5: larr = np.sort(larr)
        v = rng.normal(size=(2, nb))
        c.case(l0=l0, lf=lf, larr=larr)
        u = b.unbin_cell(v, larr)
        for s in range(2):
            for i, x in enumerate(larr):
                k = np.where((l0 <= x) & (x < lf))[0]
                if len(k):
                    if not c.close('flat unbin value', u[s][i], v[s][k[0]], 1e-13): break
        c.close('flat effective multipoles', b.get_effective_ells(), 0.5 * (l0 + lf), 1e-13)
        ls = np.linspace(0, 520, 400)
        cl = np.vstack([3 + 2 * ls, 1 - 0.5 * ls])
        c.close('flat bin_cell evaluates the spectrum at the band centre', b.bin_cell(ls, cl),
                np.vstack([3 + (l0 + lf), 1 - 0.25 * (l0 + lf)]), 1e-6)
