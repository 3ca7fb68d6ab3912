"""C23: catalog fields vs direct sums of spin spherical harmonics (Wigner d from its explicit sum)."""
import numpy as np, healpy as hp, warnings
from math import factorial as F
import pymaster as nmt


def wd(l, m, s, th):
    """Wigner small d^l_{m s}(theta)"""
    r = np.zeros_like(th); c, n = np.cos(th / 2), np.sin(th / 2)
    for k in range(max(0, s - m), min(l + s, l - m) + 1):
        r += (-1.) ** (m - s + k) / (F(l + s - k) * F(k) * F(m - s + k) * F(l - m - k)) * c ** (2 * l + s - m - 2 * k) * n ** (m - s + 2 * k)
    return r * np.sqrt(float(F(l + m) * F(l - m)) * float(F(l + s) * F(l - s)))


def ylm(l, m, s, th, ph):
    """spin-weighted spherical harmonic, Condon-Shortley phase"""
    return (-1.) ** s * np.sqrt((2 * l + 1) / (4 * np.pi)) * wd(l, m, -s, th) * np.exp(1j * m * ph)


def sums(v, th, ph, spin, lmax):
    """sum over sources of value times conjugate harmonics: T, or E/B"""
    L, M = hp.Alm.getlm(lmax)
    if spin == 0:
        return np.array([[np.sum(v[0] * np.conj(ylm(l, m, 0, th, ph))) for l, m in zip(L, M)]])
    out = np.zeros((2, len(L)), complex)
    for i, (l, m) in enumerate(zip(L, M)):
        if l < spin: continue
        ap = np.sum((v[0] + 1j * v[1]) * np.conj(ylm(l, m, spin, th, ph)))
        am = np.sum((v[0] - 1j * v[1]) * np.conj(ylm(l, m, -spin, th, ph)))
        s = (-1.) ** spin
        out[0, i] = -(ap + s * am) / 2
        out[1, i] = 1j * (ap - s * am) / 2
    return out


def pcl(a, b, lmax):
    L, M = hp.Alm.getlm(lmax); w = np.where(M == 0, 1, 2)
    return np.array([[[np.sum((w * np.real(x * np.conj(y)))[L == l]) / (2 * l + 1) for l in range(lmax + 1)] for y in b] for x in a])


def cat(rng, n):
    th = np.arccos(rng.uniform(-1, 1, n)); ph = rng.uniform(0, 2 * np.pi, n)
    if rng.integers(0, 3) == 0: th, ph = rng.uniform(.3, .6, n), rng.uniform(1, 1.4, n)
    if n and rng.integers(0, 4) == 0: th[0] = rng.choice([0., np.pi])
    return th, ph


def pos(th, ph, ll):
    return np.array([np.degrees(ph), np.clip(90 - np.degrees(th), -90, 90)]) if ll else np.array([th, ph])


TOL = 5e-4    # the transform is requested at 1e-5 of its largest coefficient


def field(c, rng):
    n = int(rng.integers(1, 30)); th, ph = cat(rng, n)
    spin = int(rng.choice([0, 0, 1, 2, 2, 3]))
    lmax = int(rng.integers(max(2, spin), 9)); lmm = lmax if rng.integers(0, 2) else int(rng.integers(1, 12))
    w = rng.uniform(0, 2, n) * 10 ** rng.uniform(-2, 2); v = rng.normal(size=(2 if spin else 1, n))
    ll = bool(rng.integers(0, 2)); fw = bool(rng.integers(0, 2))
    bm = None if rng.integers(0, 2) else rng.uniform(.5, 1, lmax + 1 + int(rng.integers(0, 3)))
    c.case(kind='field', theta=th, phi=ph, weights=w, field=v, spin=spin, lmax=lmax, lmax_mask=lmm, lonlat=ll, field_is_weighted=fw, beam=bm)
    f = nmt.NmtFieldCatalog(pos(th, ph, ll), w, v if spin else (v if rng.integers(0, 2) else v[0]), lmax, lmax_mask=None if lmm == lmax else lmm,
                            spin=None if spin in (0, 2) and rng.integers(0, 2) else spin, beam=bm, field_is_weighted=fw, lonlat=ll)
    x = v if fw else v * w
    c.close('mask shot noise', f.Nw, np.sum(w ** 2) / (4 * np.pi), 1e-12)
    c.close('field shot noise', f.Nf, np.sum(x ** 2) / len(x) / (4 * np.pi), 1e-12)
    am, a = sums(w[None], th, ph, 0, lmm), sums(x, th, ph, spin, lmax)
    c.close('mask coefficients', f.get_mask_alms(), am[0], TOL, scale=np.sum(np.abs(w)))
    c.close('field coefficients', f.get_alms(), a, TOL, scale=np.sum(np.abs(x)))
    c.close('beam', np.asarray(f.beam)[:lmax + 1], np.ones(lmax + 1) if bm is None else np.asarray(bm)[:lmax + 1], 0)
    c.true('attributes', f.spin == spin and f.is_catalog and f.ainfo.lmax == lmax and f.ainfo_mask.lmax == lmm)
    return f, dict(th=th, ph=ph, w=w, x=x, am=am, a=a, spin=spin, lmax=lmax, lmm=lmm, beam=bm, Nw=np.sum(w ** 2) / (4 * np.pi), Nf=np.sum(x ** 2) / len(x) / (4 * np.pi))


def clustering(c, rng):
    n, nr = int(rng.integers(1, 20)), int(rng.integers(1, 30))
    th, ph = cat(rng, n); tr, pr = cat(rng, nr)
    w, wr = rng.uniform(.1, 2, n), rng.uniform(.1, 2, nr)
    lmax = int(rng.integers(2, 9)); ll = bool(rng.integers(0, 2))
    c.case(kind='clustering', theta=th, phi=ph, weights=w, theta_rand=tr, phi_rand=pr, weights_rand=wr, lmax=lmax, lonlat=ll)
    f = nmt.NmtFieldCatalogClustering(pos(th, ph, ll), w, pos(tr, pr, ll), wr, lmax, lonlat=ll)
    al = w.sum() / wr.sum()
    Nw = al ** 2 * np.sum(wr ** 2) / (4 * np.pi); Nf = np.sum(w ** 2) / (4 * np.pi) + Nw
    c.close('data-to-random ratio', f.alpha, al, 1e-12)
    c.close('mask shot noise (randoms)', f.Nw, Nw, 1e-12)
    c.close('field shot noise (randoms)', f.Nf, Nf, 1e-12)
    am = al * sums(wr[None], tr, pr, 0, lmax); a = sums(w[None], th, ph, 0, lmax) - am
    c.close('mask coefficients (randoms)', f.get_mask_alms(), am[0], TOL, scale=2 * w.sum())
    c.close('field coefficients (randoms)', f.get_alms(), a, TOL, scale=2 * w.sum())
    return f, dict(am=am, a=a, spin=0, lmax=lmax, lmm=lmax, Nw=Nw, Nf=Nf, beam=None)


def spectra(c, rng, f, d):
    L = d['lmax']
    want = pcl(d['a'], d['a'], L); sc = np.abs(want).max() + d['Nf']
    got = nmt.compute_coupled_cell(f, f).reshape(want.shape)
    c.close('auto-spectrum is noise-subtracted (and only its diagonal)', got, want - d['Nf'] * np.eye(len(want))[:, :, None], 3 * TOL, scale=sc + np.sum(np.abs(d['a']) ** 2))
    c.close('the subtracted level', nmt.compute_coupled_cell(f, f).reshape(want.shape), np.array([[hp.alm2cl(x, y) for y in f.get_alms()] for x in f.get_alms()]) - d['Nf'] * np.eye(len(want))[:, :, None], 1e-9, scale=sc)
    import copy
    g = copy.copy(f)      # a different field with the same content
    c.close('cross-spectrum of different fields is not noise-subtracted', nmt.compute_coupled_cell(f, g).reshape(want.shape), np.array([[hp.alm2cl(x, y) for y in g.get_alms()] for x in f.get_alms()]), 1e-10, scale=sc)
    # mask: coupling matrix of the same field uses the noise-subtracted mask spectrum; that of different fields does not
    b = nmt.NmtBin(bpws=np.arange(L + 1), ells=np.arange(L + 1), weights=np.ones(L + 1), lmax=L)
    cls = {}
    am = f.get_mask_alms()
    pm = hp.alm2cl(am)
    K = max(L, d['lmm']) + 1
    for nm, h, p in (('same', f, pm - d['Nw']), ('different', g, pm)):
        w = nmt.NmtWorkspace(); w.compute_coupling_matrix(f, h, b)
        from . import orc
        ref = orc.mcm(p, d['spin'], d['spin'], L)
        c.close('mask noise in the coupling matrix: %s fields' % nm, w.get_coupling_matrix(), ref.reshape(w.get_coupling_matrix().shape), 1e-8, scale=np.abs(ref).max() + np.abs(pm).max())
    # maps are never noise-subtracted
    if d['lmm'] == L and L >= max(2, d['spin']):
        m = rng.normal(size=48)
        fm = nmt.NmtField(m ** 2, [m], spin=0, lmax=L, lmax_mask=L, n_iter=0)
        got = nmt.compute_coupled_cell(f, fm)
        c.close('cross-spectrum with a map is not noise-subtracted', got, np.array([hp.alm2cl(x, fm.get_alms()[0]) for x in f.get_alms()]), 1e-10, scale=np.abs(got).max() + 1e-30)
        c.close('map auto-spectrum is not noise-subtracted', nmt.compute_coupled_cell(fm, fm)[0], hp.alm2cl(fm.get_alms()[0]), 1e-12)
        c.true('maps carry no noise level', fm.Nf == 0 and fm.Nw == 0)


def refusals(c, rng):
    n = int(rng.integers(2, 9)); th, ph = cat(rng, n); w = rng.uniform(.1, 1, n); v = rng.normal(size=(2, n)); p = np.array([th, ph])
    N = nmt.NmtFieldCatalog; C = nmt.NmtFieldCatalogClustering
    c.case(kind='refusals', theta=th, phi=ph, weights=w, field=v)
    for nm, fn in dict(
            short_positions=lambda: N(p[:, :-1], w, v, 5), transposed=lambda: N(np.zeros((n + 3, 2)), np.ones(n + 3), np.zeros(n + 3), 5) if n + 3 != 2 else 1 / 0,
            bad_colatitude=lambda: N(p + np.array([[4.], [0.]]), w, v, 5), bad_longitude=lambda: N(np.array([th, ph + 7]), w, v, 5), negative_longitude=lambda: N(np.array([th, ph - 7]), w, v, 5),
            bad_latitude=lambda: N(np.array([np.degrees(ph), 91 + th]), w, v, 5, lonlat=True), three=lambda: N(p, w, np.zeros((3, n)), 5), length=lambda: N(p, w, v[:, :-1], 5),
            spin0two=lambda: N(p, w, v, 5, spin=0), spin2one=lambda: N(p, w, v[:1], 5, spin=2), beam=lambda: N(p, w, v, 5, beam=np.ones(5)), beamtype=lambda: N(p, w, v, 5, beam=3.),
            nospin=lambda: N(p, w, None, 5), rshort=lambda: C(p, w, p[:, :-1], w, 5), dshort=lambda: C(p[:, :-1], w, p, w, 5), rcol=lambda: C(p, w, p + np.array([[4.], [0.]]), w, 5),
            dcol=lambda: C(p + np.array([[4.], [0.]]), w, p, w, 5), nan=lambda: N(p * np.nan, w, v, 5)).items():
        c.raises('bad catalogs are refused: ' + nm, fn)
    f = N(p, w, None, 5, spin=2)
    c.raises('a field without values has no coefficients', f.get_alms)
    g = N(p, w, v, 5)
    for nm, fn in dict(mask=g.get_mask, maps=g.get_maps, temp=g.get_templates).items():
        c.raises('catalog fields have no maps: ' + nm, fn)
    c.raises('fields of different range are refused', lambda: nmt.compute_coupled_cell(g, N(p, w, v, 6, lmax_mask=5)))
    c.raises('fields of different mask range are refused', lambda: nmt.compute_coupled_cell(g, N(p, w, v, 5, lmax_mask=6)))


def run(c):
    warnings.simplefilter('ignore')
    rng = c.rng; K = 0
    while c.more() and K < (400 if c.thorough else 60):
        K += 1
        f, d = (field if K % 3 else clustering)(c, rng)
        spectra(c, rng, f, d)
        if K % 6 == 1: refusals(c, rng)
