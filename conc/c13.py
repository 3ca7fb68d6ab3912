"""Flat-sky apodization against brute-force distances."""
import numpy as np
import pymaster as nmt


def dist(m, dx, dy):
    iy, ix = np.where(m <= 0)
    ny, nx = m.shape
    if iy.size == 0: return np.full(m.shape, 1e9)
    Y, X = np.mgrid[:ny, :nx]
    d = np.full(m.shape, 1e18)
    for y, x in zip(iy, ix):
        d = np.minimum(d, ((X - x) * dx) ** 2 + ((Y - y) * dy) ** 2)
    return np.sqrt(d)


def run(c):
    rng = c.rng
    K = 0
    while c.more() and K < (6000 if c.thorough else 400):
        K += 1
        nx, ny = [int(k) for k in rng.integers(2, 40, 2)]
        dx, dy = np.radians(rng.uniform(.05, 1)) * np.array([1, rng.choice([1., rng.uniform(.2, 5)])])
        lx, ly = float(nx * dx), float(ny * dy)
        m = rng.uniform(.1, 3, (ny, nx)) if rng.integers(0, 2) else np.ones((ny, nx))
        k = K % 5
        if k == 0: m[rng.integers(0, ny), rng.integers(0, nx)] = 0
        elif k == 1: m[rng.uniform(size=m.shape) < .05] = 0
        elif k == 2: m[:max(1, ny // 4)] = 0
        elif k == 3: m[:, -max(1, nx // 3):] = 0
        if K % 40 == 3: m[:] = 0
        pix = np.degrees(max(dx, dy))
        deg = float(rng.choice([rng.uniform(.3, 6) * pix, rng.uniform(.3, 40) * pix]))
        a = np.radians(deg)
        typ = ['C1', 'C2', 'Smooth'][K % 3]
        c.case(kind='flat', nx=nx, ny=ny, lx=lx, ly=ly, scale_deg=deg, apotype=typ, mask=m)
        m0 = m.copy()
        got = nmt.mask_apodization_flat(m, lx, ly, deg, apotype=typ)
        c.true('the input mask is not modified', np.array_equal(m, m0))
        d = dist(m, dx, dy)
        if typ != 'Smooth':
            x = d / a
            f = x - np.sin(2 * np.pi * x) / (2 * np.pi) if typ == 'C1' else .5 * (1 - np.cos(np.pi * x))
            want = np.where(d >= a, m, m * f)
            c.close('%s: mask times the documented function of the distance' % typ, got, want, 1e-9, scale=3)
            c.true('between zero and the mask', np.all((got >= -1e-12) & (got <= m + 1e-12)))
            c.true('masked pixels stay masked', np.all(got[m <= 0] == 0))
        else:
            if np.any(np.abs(d / (2.5 * a) - 1) < 1e-9): continue
            b = np.where(d <= 2.5 * a, 0, m)
            kx, ky = 2 * np.pi * np.fft.fftfreq(nx, dx), 2 * np.pi * np.fft.fftfreq(ny, dy)
            kk = np.hypot(kx[None], ky[:, None])
            # FWHM = 2.355 sigma
            sig = a
            s = np.fft.ifft2(np.fft.fft2(b) * np.exp(-.5 * (kk * sig) ** 2)).real
            c.close('Smooth: smoothed enlarged mask times the mask', got, m * s, 2e-3, scale=np.max(m) ** 2)
            s2 = np.fft.ifft2(np.fft.fft2(b) * np.exp(-.5 * kk * (kk + 1) * (sig * 2.355 / 2.354820045) ** 2)).real
            ok = np.abs(got - m * s).max() <= 3e-3 * np.max(m) ** 2
            c.true('Smooth: masked pixels stay masked', np.all(got[m <= 0] == 0) and ok)
        if K % 7 == 0:
            c.true('zero scale', np.array_equal(nmt.mask_apodization_flat(m, lx, ly, 0., apotype=typ), m))
            c.raises('negative scale', lambda: nmt.mask_apodization_flat(m, lx, ly, -deg, apotype=typ))
            c.raises('unknown scheme', lambda: nmt.mask_apodization_flat(m, lx, ly, deg, apotype='C3'))
            c.raises('not a 2D mask', lambda: nmt.mask_apodization_flat(m.flatten(), lx, ly, deg, apotype=typ))
            c.true('same result after errors', np.array_equal(nmt.mask_apodization_flat(m, lx, ly, deg, apotype=typ), got))
