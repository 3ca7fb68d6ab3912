"""Flat-sky transforms and pixel/mode-wise operations."""
import ctypes
import numpy as np
import pymaster as nmt
from .clib import *
from .flat import *

PPD = ctypes.POINTER(PD)
V = ctypes.c_void_p
alloc = fn('nmt_flatsky_info_alloc', V, I, I, D, D)
free_ = fn('nmt_flatsky_info_free', None, V)
m2a = fn('fs_map2alm', None, V, I, I, PPD, PPD)
a2m = fn('fs_alm2map', None, V, I, I, PPD, PPD)
prod = fn('fs_map_product', None, V, PD, PD, PD)
dot = fn('fs_map_dot', D, V, PD, PD)
cpy = fn('fs_mapcpy', None, V, PD, PD)
zero = fn('fs_zero_alm', None, V, PD)
alter = fn('fs_alter_alm', None, V, D, PD, PD, V, I)
kal = fn('nmt_k_function_alloc', V, I, PD, PD, D, D, I)
kfree = fn('nmt_k_function_free', None, V)
kev = fn('nmt_k_function_eval', D, V, D, V)


def pp(arrs):
    return (PD * len(arrs))(*[dp(a) for a in arrs])


def run(c):
    rng = c.rng
    K = 0
    while c.more() and K < (20000 if c.thorough else 900):
        K += 1
        P = rand_patch(rng, big=20)
        if K % 9 == 0:
            P = Patch(1 if K % 2 else P.nx, P.ny if K % 2 else 1, P.lx, P.ly)
        n = P.nx * P.ny
        spin = int(rng.integers(0, 6)); nm = 2 if spin else 1; nt = int(rng.integers(1, 4))
        c.case(kind='transform', nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, spin=spin, ntrans=nt)
        fs = alloc(P.nx, P.ny, P.lx, P.ly)
        maps = rng.normal(size=(nt * nm, P.ny, P.nx))
        keep = maps.copy()
        alm = np.full((nt * nm, P.ny, P.h, 2), np.nan)
        m2a(fs, nt, spin, pp(maps), pp(alm))
        got = alm[..., 0] + 1j * alm[..., 1]
        want = np.concatenate([P.m2a(keep[i * nm:(i + 1) * nm], spin) for i in range(nt)])
        c.close('map to Fourier', got, want, 1e-10)
        c.true('the input maps are not modified', np.array_equal(maps, keep))
        if spin:
            raw = np.array([P.half(m) for m in keep])
            pm = lambda x: np.sum((np.abs(x) ** 2).reshape(nt, nm, P.ny, P.h), axis=1)
            c.close('modulus of the pair is kept at every mode', pm(got), pm(raw), 1e-10)
        back = np.full_like(maps, np.nan)
        a = alm.copy()
        a2m(fs, nt, spin, pp(back), pp(a))
        c.close('transforming back returns the map', back, keep, 1e-10)
        # Fourier to map for any E/B of a real map with even/odd symmetry
        m0 = rng.normal(size=(nm, P.ny, P.nx))
        al = P.m2a(m0, spin)
        x = np.stack([al.real, al.imag], -1).copy(); o = np.full((nm, P.ny, P.nx), np.nan)
        a2m(fs, 1, spin, pp(o), pp(x))
        c.close('Fourier to map', o, P.a2m(al, spin), 1e-10, scale=np.abs(m0).max())
        # pixel-wise
        u, v = rng.normal(size=(2, n)); w = np.full(n, np.nan)
        prod(fs, dp(u), dp(v), dp(w)); c.close('map product', w, u * v, 0)
        c.close('inner product', dot(fs, dp(u), dp(v)), np.sum(u * v) * P.lx * P.ly / n, 1e-12, scale=np.sum(np.abs(u * v)) * P.lx * P.ly / n)
        ww = u.copy(); prod(fs, dp(ww), dp(v), dp(ww)); c.close('map product in place', ww, u * v, 0)
        cpy(fs, dp(w), dp(v)); c.close('copy', w, v, 0)
        # filtering
        nk = int(rng.integers(2, 12)); ks = np.sort(rng.uniform(0, 1.2 * P.k.max(), nk)); f = rng.normal(size=nk)
        kf = kal(nk, dp(ks), dp(f), f[0], 0., 0)
        h = rng.normal(size=(P.ny, P.h, 2)); o = rng.normal(size=h.shape); o0 = o.copy(); h0 = h.copy()
        add = int(rng.integers(0, 2))
        alter(fs, -1., dp(h), dp(o), kf, add)
        W = interp(ks, f, P.k[:, :P.h])[..., None]
        c.close('mode filtering', o, h0 * W + (o0 if add else 0), 1e-9)
        for k in list(ks) + list(rng.uniform(0, 1.3 * P.k.max(), 3)):
            c.close('filter evaluation', kev(kf, k, None), float(interp(ks, f, np.array(k))), 1e-9, scale=np.abs(f).max())
        kfree(kf)
        hh = h0.copy(); alter(fs, 30., dp(hh), dp(hh), None, 0)
        sg = np.radians(30. / 60) / np.sqrt(8 * np.log(2))
        g = np.exp(-.5 * (P.k[:, :P.h] * sg) ** 2)[..., None]
        c.close('Gaussian beam', hh, h0 * g, 3e-4)
        kc = kal(-1, None, None, 2.5, 1., 1)
        c.true('constant filter', kev(kc, rng.uniform(0, 1e5), None) == 2.5); kfree(kc)
        zero(fs, dp(h)); c.true('zeroing', np.all(h == 0))
        free_(fs)
        # rings of a field
        if K % 5 == 0 and n > 1:
            fl = nmt.NmtFieldFlat(P.lx, P.ly, np.ones((P.ny, P.nx)), [keep[0]])
            d, nr = P.rings()
            c.close('ring centres', fl.get_ell_sampling(), (np.arange(nr) + .5) * d, 1e-12)
