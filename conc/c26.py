"""C26: simulated maps: linear in the noise, exact component covariance mode by mode.

The noise draw behind a seed is read off a simulation with unit spectra; the map of any
other spectra with the same seed must then be L(l) g with L L^T the requested covariance."""
import numpy as np, healpy as hp, warnings
import pymaster as nmt
import pymaster.utils as ut
from .geo import Geo, car, describe
from .flat import Patch, interp, rand_patch


def rand_cls(rng, n, nl):
    """PSD spectra with random rank, upper triangle row-major"""
    r = rng.integers(1, n + 2) if rng.integers(0, 2) else n + 1
    v = rng.normal(size=(nl, n, r))
    C = np.einsum('lir,ljr->ijl', v, v) * 10 ** rng.uniform(-3, 3)
    if rng.integers(0, 4) == 0: C = C * np.eye(n)[:, :, None]
    iu = np.triu_indices(n)
    return C, C[iu].copy()


def unit(n, nl):
    return np.repeat(np.eye(n)[np.triu_indices(n)][:, None], nl, 1)


def solve(c, name, a, g, C, tol=1e-6, top=0.):
    """a, g: (nmap, nsample) real; a must be L g with L L^T = C"""
    L = np.linalg.lstsq(g.T, a.T, rcond=None)[0].T
    sc = np.sqrt(np.abs(C).max() + 1e-12 * top) * max(np.abs(g).max(), 1e-300) + 1e-300
    ok = c.close(name + ': linear in the noise', a, L @ g, tol, scale=sc)
    c.close(name + ': component covariance', L @ L.T, C, 10 * tol, scale=np.abs(C).max() + 1e-12 * top + 1e-300)


def curved(c, rng):
    if rng.integers(0, 2):
        ns = int(rng.choice([2, 4])); w = None; g = Geo(nside=ns); lm = 2 * ns; sh = (12 * ns * ns,)
    else:
        ns = 1; nth, nph = int(rng.integers(8, 14)), int(rng.integers(12, 20))
        f1, f2 = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
        w, sh = car(nth, nph, f1, f2); g = Geo(wcs=w, shape=sh, nth=nth, nph=nph); lm = min(nth - 1, nph // 2) - 1
    nf = int(rng.integers(1, 4)); spins = [int(s) for s in rng.choice([0, 0, 1, 2, 2, 3], nf)]
    nm = [2 if s else 1 for s in spins]; n = sum(nm)
    sp = np.concatenate([[s] * k for s, k in zip(spins, nm)]); fld = np.concatenate([[i] * k for i, k in enumerate(nm)])
    nl = int(rng.integers(4, lm + 1)) + 1
    lmax = None if g.lmax >= nl - 1 and rng.integers(0, 2) else int(rng.integers(3, lm + 1))
    L = min(nl - 1, lmax if lmax is not None else g.lmax)
    C, cl = rand_cls(rng, n, nl)
    nb = L + 1 + int(rng.integers(0, 3)); beam = None if rng.integers(0, 3) == 0 else rng.uniform(.2, 1, (nf, nb))
    seed = int(rng.integers(0, 10 ** 6)); S = n + 2
    c.case(kind='curved', nside=g.nside, shape=sh, spins=spins, cls=cl, beam=beam, lmax=lmax, seed=seed)
    sim = lambda k, x, b=beam: nmt.synfast_spherical(ns, x, spins, beam=b, seed=seed + k, wcs=w, lmax=lmax)
    m0 = sim(0, cl)
    c.true('shape of the maps', m0.shape == (n,) + sh, m0.shape)
    np.random.seed(5); np.random.normal(size=rng.integers(0, 5))
    c.close('same seed, same maps', sim(0, cl), m0, 0)
    c.true('different seeds, different maps', np.any(sim(1, cl) != m0) or L == 0)
    c.true('negative seed: random', np.any(nmt.synfast_spherical(ns, cl, spins, beam=beam, wcs=w, lmax=lmax) != nmt.synfast_spherical(ns, cl, spins, beam=beam, wcs=w, lmax=lmax)))
    mi, ai = ut.NmtMapInfo(w, sh), ut.NmtAlmInfo(L)
    l, m = hp.Alm.getlm(L)

    def alms(mp):
        out = []; i = 0
        for s, k in zip(spins, nm):
            x = g.flat(mp[i:i + k]); i += k
            a = ut.map2alm(x, s, mi, ai, n_iter=0)
            for it in range(60):
                d = x - ut.alm2map(a, s, mi, ai)
                if np.abs(d).max() <= 1e-9 * np.abs(x).max(): break
                a = a + ut.map2alm(d, s, mi, ai, n_iter=0)
            c.close('no power beyond the multipole limit', ut.alm2map(a, s, mi, ai), x, 1e-6, scale=np.abs(x).max())
            out.append(a)
        return np.concatenate(out)
    un = unit(n, nl)
    A = np.array([alms(sim(k, cl)) for k in range(S)]); G = np.array([alms(sim(k, un, None)) for k in range(S)])
    smax = max(spins)
    for ll in range(smax, L + 1):
        j = l == ll
        a, gg = A[:, :, j].transpose(1, 0, 2).reshape(n, -1), G[:, :, j].transpose(1, 0, 2).reshape(n, -1)
        b = np.ones(n) if beam is None else beam[fld, ll]
        solve(c, 'full sky', np.concatenate([a.real, a.imag], 1), np.concatenate([gg.real, gg.imag], 1), C[:, :, ll] * np.outer(b, b), 1e-5, np.abs(C).max())
    for i in range(n):      # multipoles below the spin carry nothing
        c.true('no power below the spin', np.all(np.abs(G[:, i][:, l < sp[i]]) < 1e-6))
    j = (l >= smax)
    wt = np.where(m == 0, 1., 2.)[j]; x = np.abs(G[:, :, j]) ** 2 * wt
    N = np.sum(wt) * S
    c.true('unit noise has unit variance', np.all(np.abs(x.sum((0, 2)) / N - 1) < 8 * np.sqrt(2. / N)), x.sum((0, 2)) / N)
    c.close('m=0 coefficients are real', G[:, :, m == 0].imag, 0 * G[:, :, m == 0].imag, 0, atol=1e-6)
    # refusals
    c.raises('wrong number of spectra', lambda: nmt.synfast_spherical(ns, cl[:-1] if len(cl) > 1 else np.tile(cl, (2, 1)), spins, seed=1, wcs=w))
    c.raises('negative spin', lambda: nmt.synfast_spherical(ns, cl, [-2 if s else 0 for s in spins] if any(spins) else [-1] * nf, seed=1, wcs=w))
    c.raises('wrong number of beams', lambda: nmt.synfast_spherical(ns, cl, spins, beam=np.ones((nf + 1, nb)), seed=1, wcs=w, lmax=lmax))
    c.raises('short beams', lambda: nmt.synfast_spherical(ns, cl, spins, beam=np.ones((nf, L)), seed=1, wcs=w, lmax=lmax))
    c.raises('one short beam', lambda: nmt.synfast_spherical(ns, cl, spins, beam=[np.ones(L + 1)] * (nf - 1) + [np.ones(L)], seed=1, wcs=w, lmax=lmax))
    if w is not None:
        w2, _ = car(nth, nph, f1, f2, 1, nth - 2); c.raises('partial sky is refused', lambda: nmt.synfast_spherical(ns, cl, spins, seed=1, wcs=w2))


def flat(c, rng):
    P = rand_patch(rng)
    nf = int(rng.integers(1, 4)); spins = [int(s) for s in rng.choice([0, 0, 1, 2, 2, 3], nf)]
    nm = [2 if s else 1 for s in spins]; n = sum(nm)
    fld = np.concatenate([[i] * k for i, k in enumerate(nm)])
    if rng.integers(0, 2):      # large patches so that the multipoles resolve the modes
        P = Patch(P.nx, P.ny, P.nx * .4, P.ny * .4 * float(rng.choice([1., 1.3])))
    nl = max(2, int(P.k.max() * rng.choice([.4, .8, 1.5]))) + 1
    C, cl = rand_cls(rng, n, nl)
    beam = None if rng.integers(0, 3) == 0 else rng.uniform(.2, 1, (nf, nl))
    seed = int(rng.integers(0, 10 ** 6)); S = n + 2
    c.case(kind='flat', nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, spins=spins, cls=cl, beam=beam, seed=seed)
    sim = lambda k, x, b=beam: nmt.synfast_flat(P.nx, P.ny, P.lx, P.ly, x, spins, beam=b, seed=seed + k)
    m0 = sim(0, cl)
    c.true('shape of the maps', m0.shape == (n, P.ny, P.nx), m0.shape)
    for _ in range(2): c.close('same seed, same maps', sim(0, cl), m0, 0)
    c.true('different seeds, different maps', np.any(sim(1, cl) != m0) or not np.any(m0))

    def alms(mp):
        out, i = [], 0
        for s, k in zip(spins, nm):
            out.append(P.m2a(mp[i:i + k], s)); i += k
        return np.concatenate(out)
    ell = np.arange(nl, dtype=float)
    nu = int(P.k.max()) + 3
    un = unit(n, nu)
    A = np.array([alms(sim(k, cl)) for k in range(S)]); G = np.array([alms(sim(k, un, None)) for k in range(S)])
    K = P.k[:, :P.h]
    self_ = np.zeros(K.shape, bool)
    for iy in ([0] + ([P.ny // 2] if P.ny % 2 == 0 else [])):
        for ix in ([0] + ([P.nx // 2] if P.nx % 2 == 0 else [])): self_[iy, ix] = True
    G = G / np.sqrt(P.lx * P.ly / (4 * np.pi ** 2))        # unit spectra: <|a|^2> = area / (2 pi)^2
    A = A / np.sqrt(P.lx * P.ly / (4 * np.pi ** 2))
    nyq = np.zeros(K.shape, bool)
    if P.nx % 2 == 0: nyq[:, -1] = True
    if P.ny % 2 == 0: nyq[P.ny // 2] = True
    tot, N = np.zeros(n), 0
    for iy in range(P.ny):
        for ix in range(P.h):
            if any(spins) and (nyq[iy, ix] or (ix == 0 and iy == 0)): continue      # no direction: E and B undefined
            k = K[iy, ix]
            Ck = np.array([[interp(ell, C[i, j], k) for j in range(n)] for i in range(n)])
            b = np.ones(n) if beam is None else np.array([interp(ell, beam[i], k) for i in fld])
            if beam is None and k >= ell[-1]: b = np.zeros(n)
            a, gg = A[:, :, iy, ix].T, G[:, :, iy, ix].T
            solve(c, 'flat sky', np.concatenate([a.real, a.imag], 1), np.concatenate([gg.real, gg.imag], 1), Ck * np.outer(b, b), 1e-6, np.abs(C).max())
            if self_[iy, ix]: c.close('self-conjugate modes are real', gg.imag, 0 * gg.imag, 0, atol=1e-9)
            if ix or iy <= P.ny // 2:
                # independent real degrees of freedom: the pair of columns that are their own mirror counts once
                if (ix == 0 or 2 * ix == P.nx) and iy > P.ny // 2: continue
                tot += np.sum(np.abs(gg) ** 2, 1); N += S
    if N > 20: c.true('unit noise has unit variance', np.all(np.abs(tot / N - 1) < 8 * np.sqrt(2. / N)), (tot / N, N))
    c.sim = getattr(c, 'sim', [[], []])
    if not any(spins):
        # the self-conjugate and Nyquist modes separately (pooled over cases)
        c.sim[0] += list((np.abs(G[:, :, self_]) ** 2).mean(-1).ravel() if self_.any() else [])
        x = nyq & ~self_
        if x.any(): c.sim[1] += list((np.abs(G[:, :, x]) ** 2).ravel())
    c.raises('flat: wrong number of spectra', lambda: nmt.synfast_flat(P.nx, P.ny, P.lx, P.ly, cl[:-1] if len(cl) > 1 else np.tile(cl, (2, 1)), spins, seed=1))
    c.raises('flat: negative spin', lambda: nmt.synfast_flat(P.nx, P.ny, P.lx, P.ly, cl, [-1 - s for s in spins], seed=1))
    c.raises('flat: wrong number of beams', lambda: nmt.synfast_flat(P.nx, P.ny, P.lx, P.ly, cl, spins, beam=np.ones((nf + 1, nl)), seed=1))
    c.raises('flat: short beams', lambda: nmt.synfast_flat(P.nx, P.ny, P.lx, P.ly, cl, spins, beam=np.ones((nf, nl - 1)), seed=1))


def run(c):
    warnings.simplefilter('ignore')
    rng = c.rng; K = 0
    while c.more() and K < (400 if c.thorough else 60):
        K += 1
        [curved, flat][K % 2](c, rng)
    for nm, x in zip(('self-conjugate modes have unit variance', 'Nyquist modes have unit variance'), getattr(c, 'sim', [[], []])):
        if len(x) > 50: c.true(nm, abs(np.mean(x) - 1) < 8 * np.std(x) / np.sqrt(len(x)) + .02 and abs(np.mean(x) - 1) < .35, (np.mean(x), len(x)))
