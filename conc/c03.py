import numpy as np, ctypes, os
import pymaster as nmt
import _nmtlib
L = ctypes.CDLL(_nmtlib.__file__)
dp = ctypes.POINTER(ctypes.c_double)
L.nmt_bins_flat_create.restype = ctypes.c_void_p
L.nmt_bins_flat_create.argtypes = [ctypes.c_int, dp, dp]
L.nmt_bins_flat_free.argtypes = [ctypes.c_void_p]
L.nmt_bins_flat_search_fast.restype = ctypes.c_int
L.nmt_bins_flat_search_fast.argtypes = [ctypes.c_void_p, ctypes.c_double, ctypes.c_int]
P = lambda a: a.ctypes.data_as(dp)


def bands(rng):
    nb = int(rng.integers(1, 9))
    e = np.sort(rng.choice(np.arange(0, 300), 2 * nb, replace=False)).astype(float)
    e += rng.uniform(0, 0.4) if rng.random() < 0.5 else 0
    l0, lf = e[::2].copy(), e[1::2].copy()
    for i in range(nb - 1):
        if rng.random() < 0.6: lf[i] = l0[i + 1]
    return l0, lf


def ref(l0, lf, x):
    k = np.where((l0 <= x) & (x < lf))[0]
    return int(k[0]) if len(k) else -1


def run(c):
    rng = c.rng
    for it in range(400 if c.thorough else 80):
        if not c.more(): break
        l0, lf = bands(rng)
        nb = len(l0)
        b = L.nmt_bins_flat_create(nb, P(l0), P(lf))
        xs = np.concatenate([l0, lf, rng.uniform(-5, 310, 25), np.nextafter(l0, -1), np.nextafter(lf, -1)])
        c.case(l0=l0, lf=lf)
        bad = False
        for x in xs:
            for h in range(-1, nb):
                g = L.nmt_bins_flat_search_fast(b, x, h)
                c.case(l0=l0, lf=lf, l=x, hint=h)
                if not c.true('lookup returns the containing band for every hint', g == ref(l0, lf, x), (g, ref(l0, lf, x))):
                    bad = True; break
            if bad: break
        L.nmt_bins_flat_free(b)
        B = nmt.NmtBinFlat(l0, lf)
        v = rng.normal(size=(2, nb))
        for order in (xs, np.sort(xs), np.sort(xs)[::-1].copy(), rng.permutation(xs)):
            c.case(l0=l0, lf=lf, larr=order, bandpowers=v)
            u = B.unbin_cell(v, order)
            want = np.array([[v[s][ref(l0, lf, x)] if ref(l0, lf, x) >= 0 else -999. for x in order] for s in range(2)])
            if not c.close('unbin: containing band or -999, any order', u, want, 1e-14): break
            if not c.close('unbin of one spectrum', B.unbin_cell(v[0], order), want[0], 1e-14): break
        n = int(rng.integers(4, 40))
        ls = np.sort(rng.choice(np.arange(0, 320), n, replace=False)).astype(float) + rng.uniform(0, .5)
        cl = rng.normal(size=(2, n))
        c.case(l0=l0, lf=lf, ells=ls, cls=cl)
        cen = 0.5 * (l0 + lf)
        want = np.array([np.interp(cen, ls, cl[s]) for s in range(2)])
        c.close('bin_cell interpolates linearly at the band centre, constant outside', B.bin_cell(ls, cl), want, 1e-10)
        c.close('bin_cell of one spectrum', B.bin_cell(ls, cl[0]), want[0], 1e-10)
        c.close('effective multipoles', B.get_effective_ells(), cen, 1e-14)
        c.true('band count', B.get_n_bands() == nb)
    # mode selection in the flat-sky estimator, with gaps: each Fourier mode is counted only in its band
    for it in range(4):
        if not c.more(): break
        nx, ny = int(rng.integers(16, 28)), int(rng.integers(16, 28)); lx, ly = rng.uniform(0.05, .2, 2)
        a = nmt.NmtFieldFlat(lx, ly, np.ones((ny, nx)), [rng.normal(size=(ny, nx))])
        kx = np.fft.rfftfreq(nx, lx / nx) * 2 * np.pi; ky = np.fft.fftfreq(ny, ly / ny) * 2 * np.pi
        kk = np.sqrt(kx[None, :]**2 + ky[:, None]**2)
        d = kk.max() / 12
        l0 = np.arange(1, 10, 2) * d; lf = l0 + rng.uniform(0.4, 1.0) * d
        c.case(l0=l0, lf=lf, lx=lx, ly=ly, nx=nx, ny=ny, kind='mode selection')
        B = nmt.NmtBinFlat(l0, lf)
        cl = nmt.compute_coupled_cell_flat(a, a, B)[0]
        m = np.fft.rfft2(a.get_maps()[0]) * (lx * ly / (nx * ny)) / (2 * np.pi)
        P2 = np.abs(m)**2
        w = np.full(kk.shape, 2.); w[:, 0] = 1.
        if nx % 2 == 0: w[:, -1] = 1.
        want = [np.sum((w * P2)[(kk >= x) & (kk < y)]) / np.sum(w[(kk >= x) & (kk < y)]) * (4 * np.pi**2 / (lx * ly)) for x, y in zip(l0, lf)]
        c.close('flat spectra count each mode in its own band only', cl, want, 1e-6)
