"""Purified fields: inner products with pure E/B modes (curved and flat)."""
import numpy as np
import healpy as hp
import pymaster as nmt
import pymaster.utils as ut
from . import orc
from .geo import Geo, rand_geo, describe, car
from .flat import rand_patch, Patch


def nal(L): return (L + 1) * (L + 2) // 2


class Pure:
    """linear operator from unmasked (Q,U) to E/B coefficients: row (component, l, m), pixels (2, npix).
    wal: coefficients of the (band-limited) mask up to L1; mask: its pixel values"""
    def __init__(s, g, wal, L1, mask, lmax, pe, pb):
        import ducc0
        L = lmax + L1
        nt, nph = L + 2, 2 * L + 3
        W = orc.synth(wal[None], 0, L1, nt, nph)[0] if L1 else np.full((nt, nph), wal[0].real / np.sqrt(4 * np.pi))
        loc = np.ascontiguousarray(np.array([g.theta[g.order], g.phi[g.order]]).T)
        area = g.area[g.order]
        l_, m_ = hp.Alm.getlm(L)
        raise2 = np.where(l_ > 1, np.sqrt(np.maximum((l_ + 2.) * (l_ + 1.) * l_ * (l_ - 1.), 0)), 0.)
        s.A = np.zeros((2, nal(lmax), 2, len(area)), complex)
        ll, mm = hp.Alm.getlm(lmax)
        for i in range(nal(lmax)):
            if ll[i] < 2: continue
            n = 1. / np.sqrt((ll[i] + 2.) * (ll[i] + 1.) * ll[i] * (ll[i] - 1.))
            G = []
            for ph in ((1.,) if mm[i] == 0 else (1., 1j)):
                # real scalar mode: real (imaginary) part of a_lm
                a = np.zeros((1, nal(lmax)), complex); a[0, i] = ph
                fac = 1. if mm[i] == 0 else .5
                y = orc.synth(a, 0, lmax, nt, nph)[0] * fac
                b = orc.analys((W * y)[None], 0, L)[0] * raise2 * n
                pure = ducc0.sht.synthesis_general(alm=np.array([b, 0 * b]), spin=2, lmax=L, loc=loc, epsilon=1e-13)
                e = np.zeros((2, nal(lmax)), complex); e[0, i] = ph
                std = ducc0.sht.synthesis_general(alm=e, spin=2, lmax=lmax, loc=loc, epsilon=1e-13) * fac * mask
                G.append((pure * area, std * area))
            for comp, p in ((0, pe), (1, pb)):
                for t, gg in enumerate(G):
                    v = gg[0] if p else gg[1]
                    if comp: v = np.array([-v[1], v[0]])      # B modes: E modes turned by 45 degrees
                    s.A[comp, i] += v * (1. if t == 0 else 1j)

    def __call__(s, qu):
        return np.einsum('clip,ip->cl', s.A, qu)


def band_mask(rng, g, L1):
    """positive band-limited mask on the pixels of g"""
    import ducc0
    a = orc.rand_alm(rng, 1, L1)[0]
    loc = np.ascontiguousarray(np.array([g.theta, g.phi]).T)
    m = ducc0.sht.synthesis_general(alm=a[None], spin=0, lmax=L1, loc=loc, epsilon=1e-13)[0]
    a = a * .4 / np.abs(m).max(); m = m * .4 / np.abs(m).max()
    a[0] += .6 * np.sqrt(4 * np.pi); m = m + .6
    return a, m.reshape(g.shape)


def curved(c, rng):
    if rng.integers(0, 3): g = Geo(nside=int(rng.choice([2, 4])))
    else:
        nth = int(rng.integers(10, 14)); nph = int(rng.integers(20, 26))
        fl = [bool(x) for x in rng.integers(0, 2, 2)]
        w, sh = car(nth, nph, *fl); g = Geo(wcs=w, shape=sh, nth=nth, nph=nph); g.desc = dict(nth=nth, nph=nph, flips=fl)
    top = 5 if g.nside == 2 else (7 if g.nside else 6)
    lmax = int(rng.integers(2, top + 1))
    L1 = int(rng.integers(0, (2 if g.nside == 2 else 4) + 1))
    lmm = int(rng.integers(max(L1, 2), top + 1))
    wal, m = band_mask(rng, g, L1)
    pe, pb = [(1, 0), (0, 1), (1, 1)][rng.integers(0, 3)]
    mp = rng.normal(size=(2,) + g.shape)
    nt = int(rng.integers(0, 3))
    tm = rng.normal(size=(nt, 2) + g.shape) if nt else None
    minp = bool(rng.integers(0, 2))
    c.case(kind='curved', geometry=describe(g), lmax=lmax, lmax_mask=lmm, mask_lmax=L1, mask=m, pure_e=pe, pure_b=pb, maps=mp, templates=tm, masked_on_input=minp)
    f = nmt.NmtField(m, mp * (m if minp else 1), spin=2, wcs=g.wcs, templates=None if tm is None else tm * (m if minp else 1), masked_on_input=minp,
                     purify_e=bool(pe), purify_b=bool(pb), n_iter=0, n_iter_mask=25, lmax=lmax, lmax_mask=lmm)
    P = Pure(g, wal, L1, g.flat(m), lmax, pe, pb)
    qu = g.flat(mp)
    area = g.area[g.order]
    t = None
    if nt:
        t = g.flat(tm)
        A = (t * g.flat(m) * np.sqrt(area)).reshape(nt, -1)
        al = np.linalg.lstsq(A.T, (qu * g.flat(m) * np.sqrt(area)).ravel(), rcond=None)[0]
        qu = qu - np.tensordot(al, t, 1)
    want = P(qu)
    sc = np.abs(want).max()
    got = f.get_alms()
    tol = 1e-6
    c.close('purified coefficients: inner products with pure modes', got, want, tol, scale=sc)
    if nt:
        for k in range(nt):
            c.close('purified templates', f.alm_temp[k], P(t[k]), tol, scale=np.abs(P(t[k])).max())
        c.close('stored templates are the masked ones', f.get_templates(), t * g.flat(m), 1e-12)
    c.close('stored map: synthesis of the purified coefficients', f.get_maps(), ut.alm2map(got, 2, f.minfo, f.ainfo), 1e-10)
    fl = nmt.NmtField(m, mp * (m if minp else 1), spin=2, wcs=g.wcs, templates=None if tm is None else tm * (m if minp else 1), masked_on_input=minp, lite=True,
                      purify_e=bool(pe), purify_b=bool(pb), n_iter=0, n_iter_mask=25, lmax=lmax, lmax_mask=lmm)
    c.close('lightweight purified field', fl.get_alms(), got, 1e-9)
    c.raises('purification needs spin 2', lambda: nmt.NmtField(m, mp, spin=1, wcs=g.wcs, purify_b=True))


def flat_pure(P, m, qu, pe, pb, which=None):
    """half-plane pure E/B coefficients of unmasked (Q,U) on an odd grid, through spectral derivatives of W e^{ikx}"""
    W = np.fft.fft2(m)
    nx, ny = P.nx, P.ny
    out = np.zeros((2, ny, P.h), complex)
    std = P.m2a(np.array(qu) * m, 2)
    z = qu[0] + 1j * qu[1]
    area = P.lx * P.ly / (nx * ny)
    y, x = np.mgrid[:ny, :nx]
    for iy in range(ny):
        for ix in range(P.h):
            kx, ky = P.kx[iy, ix], P.ky[iy, ix]
            k2 = kx * kx + ky * ky
            if k2 == 0: out[:, iy, ix] = std[:, iy, ix]; continue
            # derivatives of W exp(-i k x): every mode q of W sits at q-k
            def deriv(px, py):
                return np.fft.ifft2(W * (1j * (P.kx - kx)) ** px * (1j * (P.ky - ky)) ** py) * np.exp(-1j * (2 * np.pi) * (ix * x / nx + iy * y / ny))
            xx, yy, xy = deriv(2, 0), deriv(0, 2), deriv(1, 1)
            # E = -(Q (dxx - dyy) - 2 U dxy)/k^2, B = -(U (dxx - dyy) + 2 Q dxy)/k^2 acting on the conjugate mode
            e = -np.sum(qu[0] * (xx - yy) - 2 * qu[1] * xy) / k2
            b = -np.sum(qu[1] * (xx - yy) + 2 * qu[0] * xy) / k2
            out[0, iy, ix], out[1, iy, ix] = e * P.norm, b * P.norm
    if not pe: out[0] = std[0]
    if not pb: out[1] = std[1]
    return out, std


def flat(c, rng):
    P = rand_patch(rng, True, 10)
    m = rng.uniform(.1, 1, (P.ny, P.nx))
    pe, pb = [(1, 0), (0, 1), (1, 1)][rng.integers(0, 3)]
    mp = rng.normal(size=(2, P.ny, P.nx))
    nt = int(rng.integers(0, 3))
    tm = rng.normal(size=(nt, 2, P.ny, P.nx)) if nt else None
    minp = bool(rng.integers(0, 2)); lite = bool(rng.integers(0, 2))
    c.case(kind='flat', nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, mask=m, pure_e=pe, pure_b=pb, maps=mp, templates=tm, masked_on_input=minp, lite=lite)
    f = nmt.NmtFieldFlat(P.lx, P.ly, m, mp * (m if minp else 1), spin=2, templates=None if tm is None else tm * (m if minp else 1),
                         masked_on_input=minp, purify_e=bool(pe), purify_b=bool(pb), lite=lite)
    qu = mp
    if nt:
        al = np.linalg.lstsq((tm * m).reshape(nt, -1).T, (mp * m).ravel(), rcond=None)[0]
        qu = mp - np.tensordot(al, tm, 1)
    want, std = flat_pure(P, m, qu, pe, pb)
    sc = np.abs(want).max()
    if not lite:
        got = P.m2a(f.get_maps(), 2)
        # the zero mode has no polar angle; E/B there is as for unpurified fields
        c.close('purified coefficients: inner products with pure modes', got, want, 1e-8, scale=sc)
        if nt: c.close('stored templates are the masked ones', f.get_templates(), tm * m, 1e-12)
    e = np.sort(rng.uniform(0, 1.01 * P.k.max(), 3)); e[0] = 0.
    b = nmt.NmtBinFlat(e[:-1], e[1:])
    c.close('spectra of the purified field', nmt.compute_coupled_cell_flat(f, f, b), P.cls(want, want, e[:-1], e[1:], [1., -1.], [1., -1.]), 1e-8, scale=sc ** 2 * 4 * np.pi ** 2 / (P.lx * P.ly))
    c.raises('purification needs spin 2', lambda: nmt.NmtFieldFlat(P.lx, P.ly, m, mp, spin=1, purify_b=True))


def leak(c, rng):
    """a pure-E signal leaves nothing in purified B (and the converse)"""
    P = rand_patch(rng, True, 14)
    L = 1
    y, x = np.mgrid[:P.ny, :P.nx]
    hk = np.zeros((P.ny, P.nx), complex)
    al = np.zeros((2, P.ny, P.h), complex)
    comp = int(rng.integers(0, 2))
    q = P.m2a(rng.normal(size=(2, P.ny, P.nx)), 2)
    al[comp] = q[comp]
    # low-passed signal and mask: products stay below the Nyquist frequency
    kx, ky = P.kx[:, :P.h], P.ky[:, :P.h]
    nyx, nyy = np.abs(P.kx).max(), np.abs(P.ky).max()
    if P.nx < 7 or P.ny < 7: return
    al[:, (np.abs(kx) > .34 * nyx) | (np.abs(ky) > .34 * nyy)] = 0
    al[:, 0, 0] = 0
    mp = P.a2m(al, 2)
    wm = P.half(rng.normal(size=(P.ny, P.nx)))
    wm[(np.abs(kx) > .34 * nyx) | (np.abs(ky) > .34 * nyy)] = 0
    m = np.fft.irfft2(wm / P.norm, s=(P.ny, P.nx)); m = 1 + .9 * m / (np.abs(m).max() + 1e-30)
    c.case(kind='leakage', nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, mask=m, maps=mp, input='EB'[comp])
    f = nmt.NmtFieldFlat(P.lx, P.ly, m, mp, spin=2, purify_e=True, purify_b=True)
    a = P.m2a(f.get_maps(), 2)
    a[:, 0, 0] = 0
    c.close('no leakage between E and B', a[1 - comp], 0 * a[0], 1e-9, scale=np.abs(a).max() + 1e-30)


def run(c):
    rng = c.rng
    K = 0
    import warnings; warnings.simplefilter('ignore')
    while c.more() and K < (3000 if c.thorough else 400):
        K += 1
        [curved, flat, leak][K % 3](c, rng)
