"""HEALPix apodization against the documented function of the exact distance to the nearest masked pixel."""
import numpy as np
import healpy as hp
import pymaster as nmt


def seps(P, i):
    """angular distance between pixel i and all pixels"""
    return np.arctan2(np.linalg.norm(np.cross(P[i], P), axis=1), P @ P[i])


def rand_mask(rng, n, P):
    k = rng.integers(0, 6)
    m = rng.uniform(.05, 3, n) if rng.integers(0, 2) else np.ones(n)
    if k == 0: m[int(rng.integers(0, n))] = 0
    elif k == 1: m[rng.uniform(size=n) < .03] = 0
    elif k == 2:
        v = rng.normal(size=3); v /= np.linalg.norm(v)
        m[P @ v < rng.uniform(-.9, .9)] = 0
    elif k == 3: m[np.abs(P[:, 2]) < rng.uniform(0, .5)] = 0
    elif k == 4: m[rng.uniform(size=n) < .5] = 0
    else: m[np.abs(P[:, 2]) > rng.uniform(.6, 1)] = 0
    return m


def dist_to_masked(P, m):
    z = np.where(m <= 0)[0]
    if z.size == 0:
        return np.full(len(m), 10.)
    d = np.full(len(m), 10.)
    for i in z if z.size <= len(m) // 2 else []:
        d = np.minimum(d, seps(P, i))
    if z.size > len(m) // 2:
        for i in np.where(m > 0)[0]:
            d[i] = seps(P, i)[z].min()
        d[z] = 0
    return d


def smooth_ref(x, a):
    ns = hp.npix2nside(x.size)
    l = np.arange(3 * ns)
    alm = hp.map2alm(x, lmax=3 * ns - 1, iter=3)
    return hp.alm2map(hp.almxfl(alm, np.exp(-.5 * l * (l + 1) * a ** 2)), ns, lmax=3 * ns - 1)


def run(c):
    rng = c.rng
    PP = {ns: np.array(hp.pix2vec(ns, np.arange(12 * ns * ns))).T for ns in (1, 2, 4, 8, 16)}
    K = 0
    while c.more() and K < (3000 if c.thorough else 260):
        K += 1
        ns = int(rng.choice([2, 4, 8, 8, 16])); P = PP[ns]; n = len(P)
        m = rand_mask(rng, n, P)
        a = float(rng.choice([rng.uniform(1.2 / ns, 6. / ns), rng.uniform(1.2 / ns, 1.), rng.uniform(.9, np.pi)], p=[.6, .3, .1]))
        if K % 25 == 3: m[:] = 0
        if K % 25 == 9: m = np.abs(m) + .1
        typ = ['C1', 'C2', 'Smooth'][K % 3]
        deg = float(np.degrees(min(a, 3.1)))
        a = np.radians(deg)
        c.case(kind='apodize', nside=ns, scale_deg=deg, apotype=typ, mask=m)
        m0 = m.copy()
        got = nmt.mask_apodization(m, deg, apotype=typ)
        c.true('the input mask is not modified', np.array_equal(m, m0))
        d = dist_to_masked(P, m)
        if typ != 'Smooth':
            x = np.sqrt((1 - np.cos(np.minimum(d, np.pi))) / (1 - np.cos(a)))
            f = x - np.sin(2 * np.pi * x) / (2 * np.pi) if typ == 'C1' else .5 * (1 - np.cos(np.pi * x))
            want = np.where(d >= a, m, m * f); want[m <= 0] = 0
            edge = np.abs(d - a) < 1e-9
            c.close('%s: mask times the documented function of the distance' % typ, got[~edge], want[~edge], 1e-8, scale=3)
            c.true('between zero and the mask', np.all((got >= -1e-12) & (got <= m + 1e-12)))
            c.true('masked pixels stay masked', np.all(got[m <= 0] == 0))
            c.true('far pixels unchanged', np.array_equal(got[d > a + 1e-9], m[d > a + 1e-9]))
        else:
            from pymaster import nmtlib as lib
            b = lib.apomask(m, n, deg, 'Smooth')
            sure = d < 2.5 * a - 1e-9
            c.true('Smooth: pixels within 2.5 scales are zeroed first', np.all(b[sure] == 0))
            keep = d > 2.5 * a + 3.2 / ns
            c.true('Smooth: far pixels enter unchanged', np.array_equal(b[keep], m[keep]))
            rest = ~(sure | keep)
            c.true('Smooth: others zero or unchanged', np.all((b[rest] == 0) | (b[rest] == m[rest])))
            c.close('Smooth: smoothed with the Gaussian, times the mask', got, m * smooth_ref(b, a), 1e-8, scale=3)
            c.true('Smooth: masked pixels stay masked', np.all(got[m <= 0] == 0))
        if K % 7 == 0:
            c.true('zero scale', np.array_equal(nmt.mask_apodization(m, 0., apotype=typ), m))
            c.raises('negative scale', lambda: nmt.mask_apodization(m, -deg, apotype=typ))
            c.raises('unknown scheme', lambda: nmt.mask_apodization(m, deg, apotype='c1'))
            c.raises('scale below the pixel', lambda: nmt.mask_apodization(m, 1e-4, apotype=typ))
            got2 = nmt.mask_apodization(m, deg, apotype=typ)
            c.close('same result after errors', got2, got, 1e-12, scale=3)
            mm = (m > 0)
            c.close('integer and boolean masks', nmt.mask_apodization(mm.astype(int), deg, apotype=typ), nmt.mask_apodization(mm.astype(float), deg, apotype=typ), 1e-12, scale=1)
