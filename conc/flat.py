"""Independent flat-sky reference (full Fourier plane, numpy FFTs)."""
import numpy as np


class Patch:
    def __init__(s, nx, ny, lx, ly):
        s.nx, s.ny, s.lx, s.ly = nx, ny, lx, ly
        ix, iy = np.arange(nx), np.arange(ny)
        dkx, dky = 2 * np.pi / lx, 2 * np.pi / ly
        s.kx = np.where(2 * ix <= nx, ix * dkx, -(nx - ix) * dkx)[None] + 0 * iy[:, None]
        s.ky = np.where(2 * iy <= ny, iy * dky, -(ny - iy) * dky)[:, None] + 0 * ix[None]
        s.k = np.sqrt(s.kx * s.kx + s.ky * s.ky)
        s.phi = np.arctan2(s.ky, s.kx)
        s.h = nx // 2 + 1
        s.norm = lx * ly / (2 * np.pi * nx * ny)

    def half(s, m):
        return np.fft.rfft2(m) * s.norm

    def full(s, a):
        """full plane of a half-plane array: the coefficient of -k is the conjugate of that of k"""
        f = np.zeros(a.shape[:-2] + (s.ny, s.nx), complex)
        f[..., :s.h] = a
        for ix in range(s.h, s.nx):
            f[..., ix] = np.conj(a[..., (-np.arange(s.ny)) % s.ny, s.nx - ix])
        return f

    def rot(s, spin):
        c, n = np.cos(spin * s.phi)[:, :s.h], np.sin(spin * s.phi)[:, :s.h]
        return c, n

    def eb(s, qu, spin):
        """half-plane Q,U -> E,B"""
        if spin == 0: return qu
        c, n = s.rot(spin)
        sg = -(1j ** spin)
        return sg * np.array([qu[0] * c - qu[1] * n, qu[0] * n + qu[1] * c])

    def qu(s, eb, spin):
        if spin == 0: return eb
        c, n = s.rot(spin)
        sg = np.conj(-(1j ** spin))
        return sg * np.array([eb[0] * c + eb[1] * n, -eb[0] * n + eb[1] * c])

    def m2a(s, maps, spin):
        return s.eb(np.array([s.half(m) for m in maps]), spin)

    def a2m(s, alm, spin):
        return np.array([np.fft.irfft2(a / s.norm, s=(s.ny, s.nx)) for a in s.qu(alm, spin)])

    def sel(s, cx, cy):
        return ~(((s.kx >= cx[0]) & (s.kx <= cx[1])) | ((s.ky >= cy[0]) & (s.ky <= cy[1])))

    def band(s, l0, lf):
        """band of each mode, -1 if none (first band that holds it)"""
        b = np.full(s.k.shape, -1)
        for i in range(len(l0)):
            b[(b < 0) & (s.k >= l0[i]) & (s.k < lf[i])] = i
        return b

    def cls(s, a1, a2, l0, lf, cx, cy):
        """per-band mean of Re(a1 conj(a2)) over the full plane"""
        f1, f2 = s.full(a1), s.full(a2)
        b = np.where(s.sel(cx, cy), s.band(l0, lf), -1)
        out = np.zeros((len(a1), len(a2), len(l0)))
        for i in range(len(l0)):
            m = b == i
            if m.any():
                for p in range(len(a1)):
                    for q in range(len(a2)):
                        out[p, q, i] = np.mean((f1[p] * np.conj(f2[q])).real[m])
        return out.reshape(-1, len(l0)) * 4 * np.pi ** 2 / (s.lx * s.ly)

    def rings(s):
        d = min(2 * np.pi / s.lx, 2 * np.pi / s.ly)
        kmax = np.sqrt((2 * np.pi / s.ly * (s.ny // 2)) ** 2 + (2 * np.pi / s.lx * (s.nx // 2)) ** 2)
        n = 0
        while (n + 1) * d <= kmax: n += 1
        return d, n


def interp(ell, cl, k, y0=None):
    """linear interpolation, first value below, 0 from the last multipole on"""
    r = np.interp(k, ell, cl)
    r = np.where(k <= ell[0], cl[0] if y0 is None else y0, r)
    return np.where(k >= ell[-1], 0., r)


def rand_patch(rng, odd=None, big=14):
    nx, ny = [int(k) for k in rng.integers(2, big, 2)]
    if odd:
        nx, ny = nx | 1, ny | 1
    dx = float(rng.uniform(.002, .05)); dy = dx * float(rng.choice([1., rng.uniform(.3, 3)]))
    return Patch(nx, ny, nx * dx, ny * dy)


def rand_bands(rng, P, nmax=6):
    kk = P.k.max() * 1.1
    n = int(rng.integers(1, nmax))
    e = np.sort(rng.uniform(0, kk, 2 * n))
    if rng.integers(0, 3):
        e = np.sort(rng.uniform(0, kk, n + 1)); l0, lf = e[:-1], e[1:]
    else:
        l0, lf = e[::2], e[1::2]
    if rng.integers(0, 2): l0 = l0.copy(); l0[0] = 0.
    return l0.copy(), lf.copy()


def rand_cuts(rng, P):
    out = []
    for km in (np.abs(P.kx).max(), np.abs(P.ky).max()):
        t = rng.integers(0, 5)
        if t == 4:  # limits that coincide exactly with modes (k = 0)
            w = float(rng.uniform(0, .6) * km); out.append([[0., 0.], [-w, 0.], [0., w]][int(rng.integers(0, 3))])
        elif t <= 1: out.append([1., -1.])
        elif t == 2:
            w = rng.uniform(0, .6) * km; out.append([-w, w])
        else: out.append([float(k) for k in np.sort(rng.uniform(-km, km, 2))])
    return out


def rand_mask(rng, P):
    m = rng.uniform(0, 1, (P.ny, P.nx))
    t = rng.integers(0, 3)
    if t == 0: m = (m > .3).astype(float)
    elif t == 1:
        y, x = np.mgrid[:P.ny, :P.nx]
        m = np.exp(-((x - .4 * P.nx) + (y - .5 * P.ny)) ** 2 / 6. - ((x - .4 * P.nx) - (y - .5 * P.ny)) ** 2 / 40.)
    if m.sum() == 0: m += 1
    return m


def mcm(P, m1, m2, s1, s2, pure1, pure2, b1, b2, l0, lf, cx, cy, teb=False, ring=None):
    """binned matrix [(band,cl),(band',cl')]; with ring (index of each mode) the unbinned one"""
    f1, f2 = np.fft.fft2(m1) * P.norm, np.fft.fft2(m2) * P.norm
    pw = (f1 * np.conj(f2)).real
    band = P.band(l0, lf)
    out = np.where(P.sel(cx, cy), band, -1)
    if ring is None:
        inn, nb2 = band, len(l0)
    else:
        inn, nb2 = ring
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    pairs = [(a, b) for a in range(n1) for b in range(n2)]
    if teb:
        pairs = [('T', 'T'), ('T', 0), ('T', 1), (0, 0), (0, 1), (1, 0), (1, 1)]
    nc = len(pairs)
    M = np.zeros((len(l0), nc, nb2, nc))
    beam = b1(P.k) * b2(P.k)

    def R(spin, pure, i1, a, c):
        """rotation row a, column c, all second modes"""
        if spin == 0: return np.ones(P.k.shape)
        d = spin * (P.phi[i1] - P.phi)
        if pure[a]:
            k1 = P.k[i1]
            if k1 == 0:
                r = (P.k == 0).astype(float)
            else:
                r = (P.k / k1) ** 2
            return r if a == c else 0 * P.k
        if a == c: return np.cos(d)
        return -np.sin(d) if a == 0 else np.sin(d)
    iy2, ix2 = np.mgrid[:P.ny, :P.nx]
    for iy1 in range(P.ny):
        for ix1 in range(P.nx):
            i = out[iy1, ix1]
            if i < 0: continue
            q = pw[(iy1 - iy2) % P.ny, (ix1 - ix2) % P.nx] * beam
            for u, (a, b) in enumerate(pairs):
                for v, (c, d) in enumerate(pairs):
                    if (a == 'T') != (c == 'T') or (b == 'T') != (d == 'T'): continue
                    ra = 1. if a == 'T' else R(s1 if not teb else s2, pure1 if not teb else pure2, (iy1, ix1), a, c)
                    rb = 1. if b == 'T' else R(s2, pure2, (iy1, ix1), b, d)
                    w = q * ra * rb
                    ok = inn >= 0
                    np.add.at(M[i, u, :, v], inn[ok], w[ok])
    ncell = np.array([np.sum(out == i) for i in range(len(l0))])
    fac = 4 * np.pi ** 2 / (P.lx * P.ly) ** 2
    M *= (np.where(ncell > 0, fac / np.maximum(ncell, 1), 0))[:, None, None, None]
    return M


def ensemble(P, m1, m2, s1, s2, l0, lf, cx, cy, a, b, inband):
    """exact mean of the estimator for unit a-b spectrum (spin-s1 component a, spin-s2 component b) in input modes 'inband'.

    Complex linear response of the masked transform to each Fourier mode of the inputs (odd grids only)."""
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)

    def eb_full(f, spin):
        if spin == 0: return f
        c, n = np.cos(spin * P.phi), np.sin(spin * P.phi)
        sg = -(1j ** spin)
        return sg * np.array([f[0] * c - f[1] * n, f[0] * n + f[1] * c])

    def resp(m, spin, comp, i):
        """masked E/B of a unit mode i of component comp"""
        n = 2 if spin else 1
        al = np.zeros((n, P.ny, P.nx), complex); al[comp][i] = 1
        if spin:
            c, s_ = np.cos(spin * P.phi), np.sin(spin * P.phi)
            sg = np.conj(-(1j ** spin))
            al = sg * np.array([al[0] * c + al[1] * s_, -al[0] * s_ + al[1] * c])
        mp = np.fft.ifft2(al / P.norm) * m
        return eb_full(np.fft.fft2(mp) * P.norm, spin)
    out = np.zeros((n1, n2, len(l0)))
    bd = np.where(P.sel(cx, cy), P.band(l0, lf), -1)
    for i in zip(*np.where(inband)):
        r1, r2 = resp(m1, s1, a, i), resp(m2, s2, b, i)
        for p in range(n1):
            for q in range(n2):
                x = (r1[p] * np.conj(r2[q])).real
                for k in range(len(l0)):
                    if np.any(bd == k): out[p, q, k] += x[bd == k].sum() / np.sum(bd == k)
    # <a a*> = C * lx ly / (4 pi^2) per mode; estimator multiplies by 4 pi^2/(lx ly)
    return out.reshape(-1, len(l0))
