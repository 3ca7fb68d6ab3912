"""Band-construction contracts: explicit assignments, linear and edge-defined schemes."""
import numpy as np
import pymaster as nmt
from .c01 import rand_bins


def check_scheme(c, b, bands, wts, fell, lmax, tag):
    """bands: list of multipole lists; wts, fell: same structure"""
    nb = len(bands)
    ok = c.true(tag + ': number of bands', b.get_n_bands() == nb, b.get_n_bands())
    ok &= c.true(tag + ': lmax', b.lmax == lmax and b.bin.ell_max == lmax, (b.lmax, b.bin.ell_max))
    if not ok: return
    c.true(tag + ': nell', list(b.get_nell_list()) == [len(x) for x in bands])
    for k in range(nb):
        c.true(tag + ': multipoles', list(b.get_ell_list(k)) == list(bands[k]), (k, list(b.get_ell_list(k)), list(bands[k])))
        w = np.asarray(wts[k], float)
        c.close(tag + ': weights', b.get_weight_list(k), w / w.sum(), 1e-12)
        c.true(tag + ': ell_min', b.get_ell_min(k) == bands[k][0])
        c.true(tag + ': ell_max', b.get_ell_max(k) == bands[k][-1])
    # ell factors observed through binning delta spectra
    for k in range(min(nb, 4)):
        j = int(c.rng.integers(0, len(bands[k])))
        cl = np.zeros(lmax + 1); cl[bands[k][j]] = 1.
        out = b.bin_cell(cl)
        want = np.zeros(nb)
        for kk in range(nb):
            w = np.asarray(wts[kk], float); w = w / w.sum()
            for jj, l in enumerate(bands[kk]):
                if l == bands[k][j]:
                    want[kk] += w[jj] * fell[kk][jj]
        c.close(tag + ': weight*f_ell of one multipole', out, want, 1e-12, atol=1e-300)


def run(c):
    rng = c.rng
    n = 200 if c.thorough else 50
    for it in range(n):
        if not c.more(): break
        lmax, bp, ells, w, f = rand_bins(rng)
        perm = rng.permutation(len(ells))
        bp, ells, w = bp[perm], ells[perm], w[perm]
        f = None if f is None else f[perm]
        lm = lmax if rng.random() < 0.5 else max(2, lmax - int(rng.integers(0, lmax // 2)))
        c.case(kind='explicit', bpws=bp, ells=ells, weights=w, f_ell=f, lmax=lm)
        keep = (ells <= lm) & (bp >= 0)
        if not keep.any(): continue
        nb = bp[keep].max() + 1
        bands = [ells[keep & (bp == k)] for k in range(nb)]
        wts = [w[keep & (bp == k)] for k in range(nb)]
        fe = np.ones(len(ells)) if f is None else np.where(f > 0, f, 1.)
        fl = [fe[keep & (bp == k)] for k in range(nb)]
        if any(len(x) == 0 for x in bands):
            c.raises('band without multipoles is rejected', lambda: nmt.NmtBin(bpws=bp, ells=ells, weights=w, lmax=lm, f_ell=f), RuntimeError)
            continue
        useNone = rng.random() < 0.2
        b = nmt.NmtBin(bpws=bp, ells=ells, weights=None if useNone else w, lmax=lm, f_ell=f)
        if useNone: wts = [np.ones(len(x)) for x in bands]
        check_scheme(c, b, bands, wts, fl, lm, 'explicit')
        if it % 5 == 0:
            k = int(rng.integers(0, nb))
            w2 = w.copy(); w2[keep & (bp == k)] *= rng.choice([0., -1.])
            c.raises('non-positive band weight is rejected', lambda: nmt.NmtBin(bpws=bp, ells=ells, weights=w2, lmax=lm, f_ell=f), RuntimeError)
    for it in range(n):
        if not c.more(): break
        nlb = int(rng.integers(1, 15)); l2 = bool(rng.integers(0, 2)); uf = rng.random() < 0.3
        if it % 2:
            nside = int(rng.choice([2, 4, 8, 16, 5])); lmax = 3 * nside - 1
        else:
            nside = None; lmax = int(rng.integers(2, 90))
        ls = np.arange(lmax + 1)
        f = rng.uniform(-0.2, 3, lmax + 1) if uf else None
        c.case(kind='linear', lmax=lmax, nside=nside, nlb=nlb, is_Dell=l2, f_ell=f)
        mk = (lambda: nmt.NmtBin.from_nside_linear(nside, nlb, is_Dell=l2, f_ell=f)) if nside else \
            (lambda: nmt.NmtBin.from_lmax_linear(lmax, nlb, is_Dell=l2, f_ell=f))
        nb = (lmax - 1) // nlb
        if nb == 0:
            c.raises('no complete band', mk, RuntimeError); continue
        b = mk()
        fe = np.where(f > 0, f, 1.) if uf else (ls * (ls + 1.) / (2 * np.pi) if l2 else np.ones(lmax + 1))
        if l2 and not uf: fe = np.where(fe > 0, fe, 1.)
        bands = [np.arange(2 + k * nlb, 2 + (k + 1) * nlb) for k in range(nb)]
        check_scheme(c, b, bands, [np.ones(nlb)] * nb, [fe[x] for x in bands], lmax, 'linear')
    for it in range(n):
        if not c.more(): break
        nb = int(rng.integers(1, 7)); l2 = bool(rng.integers(0, 2)); uf = rng.random() < 0.3
        e = np.sort(rng.choice(np.arange(0 if rng.random() < .3 else 2, 80), 2 * nb, replace=False))
        li, le_ = e[::2], e[1::2]
        if rng.random() < 0.5:
            e = np.sort(rng.choice(np.arange(2, 80), nb + 1, replace=False)); li, le_ = e[:-1], e[1:]
        bands = [np.arange(a, z) for a, z in zip(li, le_)]
        lmax = max(x[-1] for x in bands)
        allel = np.concatenate(bands)
        f = rng.uniform(-0.2, 3, len(allel)) if uf else None
        c.case(kind='edges', ell_ini=li, ell_end=le_, is_Dell=l2, f_ell=f)
        b = nmt.NmtBin.from_edges(li, le_, is_Dell=l2, f_ell=f)
        fe = f if uf else (allel * (allel + 1.) / (2 * np.pi) if l2 else np.ones(len(allel)))
        fe = np.where(fe > 0, fe, 1.)
        o = np.cumsum([0] + [len(x) for x in bands])
        check_scheme(c, b, bands, [np.ones(len(x)) for x in bands], [fe[o[k]:o[k + 1]] for k in range(nb)], lmax, 'edges')
