"""C20: geometry objects vs the true pixel coordinates (healpy / WCS) and areas."""
import numpy as np, healpy as hp, warnings
import pymaster as nmt
import pymaster.utils as ut
from .geo import car, Geo, rand_geo, describe, cc_weights


def angd(a, b):
    return np.abs((a - b + np.pi) % (2 * np.pi) - np.pi)


def one(c, rng, g):
    mi = ut.NmtMapInfo(g.wcs, g.shape)
    si = mi.si
    npix = int(np.prod(g.shape))
    hpx = bool(g.nside)
    c.true('number of pixels', mi.npix == npix and mi.is_healpix == hpx, mi.npix)
    th, ph = g.theta[g.order], g.phi[g.order]
    nf = npix if hpx else si.nring * si.nx_full
    # ring description -> coordinates of every (padded) pixel
    c.true('ring starts partition the map', int(np.sum(si.nphi)) == nf and np.array_equal(si.offsets, np.concatenate([[0], np.cumsum(si.nphi)[:-1]])))
    rth = np.repeat(si.theta, si.nphi.astype(int))
    rph = np.concatenate([si.phi0[i] + 2 * np.pi * np.arange(int(n)) / int(n) for i, n in enumerate(si.nphi)])
    keep = si.unpad_map(np.arange(nf, dtype=float)[None, :])[0].astype(int)
    c.close('pixel colatitudes', rth[keep], th, 1e-7, atol=1e-7)
    c.close('pixel longitudes', angd(rph[keep], ph), 0 * ph, 0, atol=1e-6)
    # order, padding
    lead = tuple(rng.integers(1, 4, size=rng.integers(1, 3)))
    m = rng.normal(size=lead + g.shape)
    r = mi.reform_map(m)
    c.close('reshaped maps follow the pixel order', r, g.flat(m), 1e-14)
    p = si.pad_map(r)
    want = np.zeros(lead + (nf,)); want[..., keep] = r
    c.close('padding puts the map on full rings', p, want, 0)
    c.close('unpadding undoes padding', si.unpad_map(p), r, 0)
    # weights
    A = g.area.ravel()[g.order]
    c.close('pixel weights', si.times_weight(r), r * A, 1e-9)
    fullA = np.full(nf, A[0]) if hpx else np.repeat(A.reshape(g.shape)[:, 0], si.nx_full)
    c.close('pixel weights (full rings)', si.times_weight(p), p * fullA, 1e-9)
    a, b = r.reshape(-1, npix)[0], rng.normal(size=npix)
    c.close('inner products', si.dot_map(a, b), np.sum(a * b * A), 1e-9, scale=np.sum(np.abs(a * b * A)))
    L = mi.get_lmax()
    ok = L == 3 * g.nside - 1 if hpx else (abs(L - g.lmax) <= 1 and L <= np.pi / min(mi.d_theta, mi.d_phi) * (1 + 1e-9) and L > np.pi / min(mi.d_theta, mi.d_phi) - 1 - 1e-9)
    c.true('default multipole limit', ok, (L, g.lmax))
    for sh in ((npix + 1,), g.shape[:-1] + (g.shape[-1] + 1,)) + (((g.shape[0] + 1, g.shape[1]),) if not hpx else ()):
        if sh[-len(g.shape):] == g.shape: continue
        c.raises('maps of another shape are refused', lambda: mi.reform_map(np.zeros((1,) + sh)))
    if not hpx and g.shape[0] != g.shape[1]:
        c.raises('transposed maps are refused', lambda: mi.reform_map(np.zeros((1,) + g.shape[::-1])))
    return mi


def same(a, b):
    if bool(a.nside) != bool(b.nside): return False
    if a.nside: return a.nside == b.nside
    # the pixels as stored, and the size of the pixels
    if a.theta.size != b.theta.size or a.shape != b.shape or a.desc['nth'] != b.desc['nth'] or a.desc['nph'] != b.desc['nph']: return False
    return np.allclose(a.theta[a.order], b.theta[b.order], atol=1e-9) and np.all(angd(a.phi[a.order], b.phi[b.order]) < 1e-9)


def vary(rng, g):
    """another geometry differing in one aspect"""
    if g.nside: return Geo(nside=g.nside * 2) if rng.integers(0, 2) else Geo(nside=max(2, g.nside // 2))
    d = dict(g.desc); k = rng.choice(['nth', 'nph', 'i0', 'j0', 'ny', 'nx', 'none'])
    if k == 'nth': d['nth'] += 1
    elif k == 'nph': d['nph'] += 1
    elif k == 'i0': d['i0'] = d['i0'] + 1 if d['i0'] + d['ny'] < d['nth'] else max(0, d['i0'] - 1)
    elif k == 'j0': d['j0'] = (d['j0'] + 1) % d['nph']
    elif k == 'ny': d['ny'] = max(2, d['ny'] - 1)
    elif k == 'nx': d['nx'] = max(1, d['nx'] - 1)
    w, sh = car(d['nth'], d['nph'], d['flip_th'], d['flip_ph'], d['i0'], d['ny'], d['j0'], d['nx'])
    h = Geo(wcs=w, shape=sh, nth=d['nth'], nph=d['nph']); h.desc = d
    return h


def run(c):
    warnings.simplefilter('ignore')
    rng = c.rng
    for ns in (2, 4, 8, 16, 32):
        g = Geo(nside=ns); c.case(nside=ns); one(c, rng, g)
    K = 0
    while c.more() and K < (4000 if c.thorough else 400):
        K += 1
        g = rand_geo(rng, nmax=20)
        h = rand_geo(rng, nmax=8) if K % 3 == 0 else vary(rng, g)
        c.case(geometry=describe(g), other=describe(h))
        mi = one(c, rng, g)
        m2 = ut.NmtMapInfo(g.wcs, g.shape)
        c.true('equal: same pixels', mi == m2 and m2 == mi and not (mi != m2) and mi == mi)
        mo = ut.NmtMapInfo(h.wcs, h.shape)
        e = same(g, h)
        if not e:
            c.true('different pixels are not equal', not (mi == mo) and not (mo == mi) and mi != mo, e)
        c.true('not equal to other things', not (mi == 3) and not (mi == mi.si) and mi != None)
        l1, l2 = rng.integers(2, 30, 2)
        a1, a2 = ut.NmtAlmInfo(int(l1)), ut.NmtAlmInfo(int(l2))
        c.true('multipole ranges compare by content', (a1 == a2) == (l1 == l2) and (a2 == a1) == (l1 == l2) and (a1 != a2) == (l1 != l2) and a1 == ut.NmtAlmInfo(int(l1)) and not (a1 == mi), (l1, l2))
        l, m = hp.Alm.getlm(int(l1))
        c.true('coefficient layout', a1.nelem == len(l) and np.array_equal(a1.mstart[m].astype(int) + l, np.arange(len(l))) and a1.mmax == l1 and a1.lmax == l1)
        if K % 4 == 0:
            lm = [int(x) for x in rng.integers(3, 6, 2)]; lk = [int(x) for x in rng.integers(3, 6, 2)]
            gs = [g, h if rng.integers(0, 2) else g]
            f = [nmt.NmtField(np.ones(x.shape), None, spin=0, wcs=x.wcs, lmax=lm[i], lmax_mask=lk[i]) for i, x in enumerate(gs)]
            if gs[0] is gs[1] or not same(*gs):
                hs = lm[0] == lm[1] and lk[0] == lk[1]; ps = gs[0] is gs[1]
                c.true('fields are compatible exactly when their pixels and multipole ranges agree',
                       f[0].is_compatible(f[1]) == (hs and ps) == f[1].is_compatible(f[0]) and f[0].is_compatible(f[1], strict=False) == hs == f[1].is_compatible(f[0], strict=False), (hs, ps))
        # refusals
        n = int(rng.integers(13, 5000))
        if n not in [12 * 4 ** k for k in range(12)]:
            c.raises('pixel counts that are not HEALPix are refused', lambda: ut.NmtMapInfo(None, [n]))
        if not g.nside:
            w = g.wcs.deepcopy(); w.wcs.ctype = ['RA---TAN', 'DEC--TAN'] + (['FREQ'] if w.naxis == 3 else [])
            c.raises('non-CAR maps are refused', lambda: ut.NmtMapInfo(w, g.shape))
            w2 = g.wcs.deepcopy(); w2.wcs.crval = [g.wcs.wcs.crval[0], 10.] + ([0.] if w2.naxis == 3 else [])
            c.raises('reference off the equator is refused', lambda: ut.NmtMapInfo(w2, g.shape))
            w3 = g.wcs.deepcopy(); w3.wcs.cdelt = [g.wcs.wcs.cdelt[0] * (1 + .4 / g.desc['nph']), g.wcs.wcs.cdelt[1]] + ([1.] if w3.naxis == 3 else [])
            c.raises('pixels not dividing the circle are refused', lambda: ut.NmtMapInfo(w3, g.shape))
            w4 = g.wcs.deepcopy(); w4.wcs.cdelt = [g.wcs.wcs.cdelt[0], g.wcs.wcs.cdelt[1] * (1 + .4 / g.desc['nth'])] + ([1.] if w4.naxis == 3 else [])
            c.raises('pixels not dividing the meridian are refused', lambda: ut.NmtMapInfo(w4, g.shape))
            c.raises('more pixels than the sphere are refused', lambda: ut.NmtMapInfo(g.wcs, (g.shape[0], g.desc['nph'] + 1)))
            c.raises('rows beyond the poles are refused', lambda: ut.NmtMapInfo(g.wcs, (g.desc['nth'] + 1, g.shape[1])))
            c.raises('one-dimensional maps with a WCS are refused', lambda: ut.NmtMapInfo(g.wcs, [mi.npix]))
