"""Independent description of the supported pixelisations."""
import numpy as np
import healpy as hp
from astropy.wcs import WCS


def car(nth, nph, flip_th=False, flip_ph=False, i0=0, ny=None, j0=0, nx=None, extra=False):
    """CAR geometry with nth rings pole to pole (nth-1 intervals), nph pixels around; rings i0..i0+ny-1 counted from the north pole."""
    ny = nth - i0 if ny is None else ny
    nx = nph if nx is None else nx
    dth, dph = 180. / (nth - 1), 360. / nph
    w = WCS(naxis=3 if extra else 2)
    ct = ['RA---CAR', 'DEC--CAR']; cd = [dph if not flip_ph else -dph, -dth if not flip_th else dth]
    # declination of the first stored row; reference pixel on the equator
    dec0 = 90 - dth * i0 if not flip_th else 90 - dth * (i0 + ny - 1)
    crp = [1., 1 - dec0 / cd[1]]
    # longitudes stay within 180 degrees of the reference: put it in the middle of the row
    mid = nx // 2
    phi_first = (j0 * dph) if not flip_ph else ((j0 + nx - 1) * dph)
    crv = [(phi_first + mid * cd[0]) % 360, 0.]
    crp[0] = mid + 1.
    w.wcs.cdelt = cd + ([1.] if extra else [])
    w.wcs.crpix = crp + ([1.] if extra else [])
    w.wcs.crval = crv + ([0.] if extra else [])
    w.wcs.ctype = ct + (['FREQ'] if extra else [])
    return w, (ny, nx)


def cc_weights(nth):
    """Clenshaw-Curtis weights for int_{-1}^{1}, nth points including both poles"""
    N = nth - 1
    th = np.pi * np.arange(nth) / N
    w = np.ones(nth)
    for k in range(1, N // 2 + 1):
        w -= (1. if 2 * k == N else 2.) / (4 * k * k - 1) * np.cos(2 * k * th)
    w *= 2. / N
    w[0] /= 2; w[-1] /= 2
    return w


class Geo:
    """coordinates, areas and order of the pixels of a map as NaMaster should store it"""
    def __init__(s, nside=None, wcs=None, shape=None, nth=None, nph=None):
        s.nside, s.wcs = nside, wcs
        if nside:
            s.shape = (12 * nside ** 2,)
            s.theta, s.phi = hp.pix2ang(nside, np.arange(12 * nside ** 2))
            s.area = np.full(s.shape, 4 * np.pi / (12 * nside ** 2))
            s.order = np.arange(12 * nside ** 2)
            s.lmax = 3 * nside - 1
        else:
            s.shape = shape
            ny, nx = shape
            jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
            co = np.zeros((nx * ny, wcs.naxis)); co[:, 0] = jj.ravel(); co[:, 1] = ii.ravel()
            sk = wcs.wcs_pix2world(co, 0)
            s.theta, s.phi = np.radians(90 - sk[:, 1]), np.radians(sk[:, 0])
            ring = np.round(s.theta / (np.pi / (nth - 1))).astype(int)
            s.area = cc_weights(nth)[ring] * 2 * np.pi / nph
            # increasing colatitude, then increasing longitude along the row
            d = wcs.wcs.cdelt
            a = np.arange(nx * ny).reshape(shape)
            if d[1] > 0: a = a[::-1]
            if d[0] < 0: a = a[:, ::-1]
            s.order = a.ravel()
            s.lmax = int(np.pi / min(np.pi / (nth - 1), 2 * np.pi / nph) + 1e-9)

    def flat(s, m):
        """stored form of a user map"""
        m = np.asarray(m)
        return m.reshape(m.shape[:m.ndim - len(s.shape)] + (-1,))[..., s.order]


def rand_geo(rng, healpix=None, nmax=14):
    if healpix is None: healpix = rng.integers(0, 2) == 0
    if healpix:
        return Geo(nside=int(rng.choice([2, 4])))
    nth = int(rng.integers(5, nmax)); nph = int(rng.integers(4, 2 * nmax))
    ny = int(rng.integers(3, nth + 1)); i0 = int(rng.integers(0, nth - ny + 1))
    nx = int(rng.integers(2, nph + 1)); j0 = int(rng.integers(0, nph))
    if rng.integers(0, 3) == 0: ny, i0, nx, j0 = nth, 0, nph, 0
    f1, f2 = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    w, shape = car(nth, nph, f1, f2, i0, ny, j0, nx, extra=bool(rng.integers(0, 4) == 0))
    g = Geo(wcs=w, shape=shape, nth=nth, nph=nph)
    g.desc = dict(nth=nth, nph=nph, ny=ny, i0=i0, nx=nx, j0=j0, flip_th=f1, flip_ph=f2)
    return g


def describe(g):
    return dict(nside=g.nside) if g.nside else g.desc
