"""HEALPix geometry and region queries against healpy and brute force."""
import ctypes
import numpy as np
import healpy as hp
from .clib import *

he_nside2npix = fn('he_nside2npix', LG, LG)
he_ring_num = fn('he_ring_num', I, LG, D)
he_query_strip = fn('he_query_strip', None, LG, D, D, PI, ctypes.POINTER(LG))
he_ang2pix = fn('he_ang2pix', LG, LG, D, D)
he_pix2vec = fn('he_pix2vec_ring', None, LG, LG, PD)
he_in_ring = fn('he_in_ring', None, I, I, D, D, PI, PI)
he_query_disc = fn('he_query_disc', None, I, D, D, D, PI, PI, I)
he_r2n = fn('he_ring2nest_inplace', None, PD, LG)
he_n2r = fn('he_nest2ring_inplace', None, PD, LG)
he_ud = fn('he_udgrade', None, PD, LG, PD, LG, I)
he_area = fn('he_get_pix_area', D, LG, LG)
he_prod = fn('he_map_product', None, LG, PD, PD, PD)
he_dot = fn('he_map_dot', D, LG, PD, PD)


def rings(ns):
    """first pixel and length of each ring, heights"""
    i = np.arange(1, 4 * ns)
    n = np.where(i < ns, 4 * i, np.where(i <= 3 * ns, 4 * ns, 4 * (4 * ns - i)))
    s = np.concatenate([[0], np.cumsum(n)[:-1]])
    z = np.array([hp.pix2vec(ns, int(k))[2] for k in s])
    return i, s, n, z


def disc(ns, cth, phi, r, inc):
    n = 12 * ns * ns
    buf = np.full(4 * n + 200, -77, np.int32)
    m = I(4 * n + 100)
    he_query_disc(ns, cth, phi, r, ip(buf), ctypes.byref(m), inc)
    return buf[:m.value].copy()


def run(c):
    rng = c.rng
    for ns in (1, 2, 4, 8, 16, 32):
        n = 12 * ns * ns
        c.case(kind='rings', nside=ns)
        c.true('number of pixels', he_nside2npix(ns) == n)
        c.close('pixel area', he_area(ns, 3 % n), 4 * np.pi / n, 1e-14)
        i, s, m, z = rings(ns)
        c.close('ring of a pixel centre', [he_ring_num(ns, x) for x in z], i, 0)
        v = np.zeros(3); got = []
        for p in range(0, n, max(1, n // 200)):
            he_pix2vec(ns, p, dp(v)); got.append(v.copy())
        c.close('pixel centres', got, np.array(hp.pix2vec(ns, np.arange(0, n, max(1, n // 200)))).T, 1e-13)
        zz = np.sort(np.concatenate([rng.uniform(-1, 1, 200), [-1, 1]]))
        k = np.array([he_ring_num(ns, x) for x in zz])
        c.true('rings are ordered by height', np.all(np.diff(k) <= 0) and k[0] == 4 * ns - 1 and k[-1] == 1, k)
        for x, kk in zip(zz, k):
            # the ring lies within one ring of the height
            j = int(np.sum(z > x))          # rings above x
            c.true('the ring is next to the height', kk in (j, j + 1) or (j == 0 and kk == 1) or (j == 4 * ns - 1 and kk == j), (x, kk, j))
        # angles
        ct, ph = rng.uniform(-1, 1, 400), rng.uniform(-7, 14, 400)
        c.close('pixel of an angle', [he_ang2pix(ns, a, b) for a, b in zip(ct, ph)], hp.ang2pix(ns, np.arccos(ct), np.mod(ph, 2 * np.pi)), 0)
        th, pp = hp.pix2ang(ns, np.arange(n)[::max(1, n // 300)])
        c.close('pixel of its centre', [he_ang2pix(ns, np.cos(a), b) for a, b in zip(th, pp)], np.arange(n)[::max(1, n // 300)], 0)
        # strips
        for _ in range(12):
            a, b = np.sort(rng.uniform(0, np.pi, 2))
            if rng.integers(0, 6) == 0: a = 0.
            if rng.integers(0, 6) == 0: b = np.pi
            c.case(kind='strip', nside=ns, theta1=a, theta2=b)
            buf = np.full(n + 10, -5, np.int32); q = LG(n)
            he_query_strip(ns, a, b, ip(buf), ctypes.byref(q))
            r1, r2 = he_ring_num(ns, np.cos(a)), he_ring_num(ns, np.cos(b))
            want = np.arange(s[r1 - 1], s[r2 - 1] + m[r2 - 1])
            c.close('strip query', buf[:q.value], want, 0)
            c.true('strip query writes only its pixels', np.all(buf[q.value:] == -5))
        # maps
        x, y = rng.normal(size=(2, n)); o = np.zeros(n)
        c.case(kind='maps', nside=ns)
        he_prod(ns, dp(x), dp(y), dp(o)); c.close('map product', o, x * y, 0)
        c.close('inner product', he_dot(ns, dp(x), dp(y)), np.sum(x * y) * 4 * np.pi / n, 1e-12, scale=np.sum(np.abs(x * y)))
        xx = x.copy(); he_prod(ns, dp(xx), dp(y), dp(xx)); c.close('map product in place', xx, x * y, 0)
        a = x.copy(); he_r2n(dp(a), ns); c.close('ring to nested', a, hp.reorder(x, r2n=True), 0)
        he_n2r(dp(a), ns); c.close('and back', a, x, 0)
        a = x.copy(); he_n2r(dp(a), ns); c.close('nested to ring', a, hp.reorder(x, n2r=True), 0)
        he_r2n(dp(a), ns); c.close('nested and back', a, x, 0)
        for no in (1, 2, 4, 8, 16):
            for nest in (0, 1):
                o = np.zeros(12 * no * no)
                c.case(kind='resolution', nside=ns, nside_out=no, nest=nest)
                he_ud(dp(x), ns, dp(o), no, nest)
                c.close('change of resolution', o, hp.ud_grade(x, no, order_in='NEST' if nest else 'RING'), 1e-12)
    # discs
    K = 0
    while c.more() and K < (30000 if c.thorough else 5000):
        ns = int(rng.choice([1, 2, 4, 8, 16])); n = 12 * ns * ns
        K += 1
        mode = K % 6
        r = float(rng.choice([rng.uniform(0, np.pi), rng.uniform(0, 3. / ns), rng.uniform(0, .5), rng.uniform(np.pi - 2. / ns, np.pi)]))
        r = min(max(r, 0), np.pi)
        if mode == 0: cth, phi = 1., rng.uniform(0, 6.28)
        elif mode == 1: cth, phi = -1., rng.uniform(0, 6.28)
        elif mode in (2, 3):
            p = int(rng.integers(0, n)); v = np.array(hp.pix2vec(ns, p)); cth, phi = v[2], np.arctan2(v[1], v[0])
            if mode == 3 and phi < 0: phi += 2 * np.pi
        elif mode == 4: cth, phi = np.cos(np.clip(rng.choice([0, np.pi]) + rng.normal() / ns, 0, np.pi)), rng.uniform(-7, 14)
        else: cth, phi = rng.uniform(-1, 1), rng.uniform(-7, 14)
        inc = int(rng.integers(0, 2))
        c.case(kind='disc', nside=ns, cth=float(cth), phi=float(phi), radius=r, inclusive=inc)
        got = disc(ns, cth, phi, r, inc)
        st = np.sqrt(max(0, 1 - cth ** 2)); u = np.array([st * np.cos(phi), st * np.sin(phi), cth])
        P = np.array(hp.pix2vec(ns, np.arange(n)))
        sep = np.arctan2(np.linalg.norm(np.cross(u, P.T), axis=1), u @ P)
        c.true('pixels of a disc are valid', got.size == 0 or (got.min() >= 0 and got.max() < n))
        c.true('no pixel twice', np.unique(got).size == got.size, got)
        need = np.where(sep < r - 1e-9)[0]
        miss = np.setdiff1d(need, got)
        if not c.true('every pixel centred inside is returned', miss.size == 0, 'missing %s at %s' % (miss, sep[miss])): break
        far = np.setdiff1d(got, np.where(sep <= r + 3.2 / ns + 1e-9)[0])
        if not c.true('only pixels near the disc', far.size == 0, 'far %s at %s' % (far, sep[far])): break
        if inc:
            # every pixel that overlaps the disc: sample points
            pass
