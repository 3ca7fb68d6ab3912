"""Independent oracles (definitions), not derived from the library's code."""
import numpy as np
from functools import lru_cache
from math import factorial as F, sqrt
from fractions import Fraction


@lru_cache(None)
def w3j(l1, l2, l3, m1, m2, m3):
    """Wigner 3j from the Racah formula, exact up to the final square root"""
    if m1 + m2 + m3 or not abs(l2 - l3) <= l1 <= l2 + l3 or abs(m1) > l1 or abs(m2) > l2 or abs(m3) > l3:
        return 0.
    s = 0
    for t in range(max(0, l2 - l3 - m1, l1 - l3 + m2), min(l1 + l2 - l3, l1 - m1, l2 + m2) + 1):
        d = F(t) * F(l3 - l2 + t + m1) * F(l3 - l1 + t - m2) * F(l1 + l2 - l3 - t) * F(l1 - t - m1) * F(l2 - t + m2)
        s += Fraction((-1) ** t, d)
    if s == 0:
        return 0.
    tri = Fraction(F(l1 + l2 - l3) * F(l1 - l2 + l3) * F(-l1 + l2 + l3), F(l1 + l2 + l3 + 1))
    n = tri * F(l1 + m1) * F(l1 - m1) * F(l2 + m2) * F(l2 - m2) * F(l3 + m3) * F(l3 - m3)
    v = n * s * s
    # sqrt of a rational with enough digits
    k = 200
    q = (v.numerator << (2 * k)) // v.denominator
    import math
    r = math.isqrt(q)
    return (-1) ** (l1 - l2 - m3) * (1 if s > 0 else -1) * float(Fraction(r, 1 << k))


_W = {}


def warr(m2, m3, L1, L):
    """array [l1,l2,l3] of 3j(l1 l2 l3; -m2-m3 m2 m3)"""
    key = (m2, m3)
    a = _W.get(key)
    if a is None or a.shape[0] <= L1 or a.shape[1] <= L:
        n1 = max(L1, 0 if a is None else a.shape[0] - 1)
        n = max(L, 0 if a is None else a.shape[1] - 1)
        a = np.zeros((n1 + 1, n + 1, n + 1))
        for l2 in range(n + 1):
            for l3 in range(n + 1):
                for l1 in range(abs(l2 - l3), min(n1, l2 + l3) + 1):
                    a[l1, l2, l3] = w3j(l1, l2, l3, -m2 - m3, m2, m3)
        _W[key] = a
    return a[:L1 + 1, :L + 1, :L + 1]


def xis(pcl, s1, s2, lmax, pure):
    """coupling sums: returns X(kind, p) for kind in '00','0s','p','m'; p number of purified legs"""
    L1 = len(pcl) - 1
    l1, l2, l3 = np.ogrid[:L1 + 1, :lmax + 1, :lmax + 1]
    w = np.asarray(pcl)[:, None, None] * (2 * l1 + 1) / (4 * np.pi)
    par = (l1 + l2 + l3) % 2
    with np.errstate(all='ignore'):
        f12 = np.where(l2 > 1, 2 * np.sqrt((l1 + 1.) * l1 / np.maximum((l2 + 2.) * (l2 - 1.), 1)), 0.) + 0. * l3
        f02 = np.where((l2 > 1) & (l1 > 1), np.sqrt(np.maximum((l1 + 2.) * (l1 + 1.) * l1 * (l1 - 1.), 0) /
                       np.maximum((l2 + 2.) * (l2 + 1.) * l2 * (l2 - 1.), 1)), 0.) + 0. * l3
    W = lambda a, b: warr(a, b, L1, lmax)
    big = max(s1, s2)
    sa, sb = (s1, s2) if s1 and s2 else (big, big)
    out = {}

    def ws(s):
        return W(s, -s)

    def wp(s):
        return ws(s) + f12 * W(1, -2) + f02 * W(0, -2)
    lo = (l2 >= 0) & (l3 >= 0)
    out['00'] = [(w * W(0, 0) ** 2).sum(0)]
    if big:
        out['0s'] = [(w * W(0, 0) * ws(big)).sum(0)] + ([(w * W(0, 0) * wp(big)).sum(0)] if pure else [])
        A = [ws(sa) * ws(sb)] + ([wp(sa) * ws(sb), wp(sa) ** 2] if pure else [])
        out['p'] = [(w * a * (par == 0)).sum(0) for a in A]
        out['m'] = [(w * a * (par == 1)).sum(0) for a in A]
    if not (s1 == 0 and s2 == 0):
        pass
    return out


def mcm(pcl, s1, s2, lmax, pe1=0, pb1=0, pe2=0, pb2=0, teb=0):
    X = xis(pcl, s1, s2, lmax, pe1 or pb1 or pe2 or pb2)
    n = 7 if teb else (2 if s1 else 1) * (2 if s2 else 1)
    M = np.zeros((lmax + 1, n, lmax + 1, n))
    f = (2 * np.arange(lmax + 1) + 1.)[None] * (-1) ** (s1 + s2)
    if teb:
        M[:, 0, :, 0] = f * X['00'][0]
        for k, p in ((1, pe2), (2, pb2)):
            M[:, k, :, k] = f * X['0s'][p]
        pp = [(pe2, pe2), (pe2, pb2), (pb2, pe2), (pb2, pb2)]
        o = 3
    elif n == 1:
        M[:, 0, :, 0] = f * X['00'][0]
        pp = []
    elif n == 2:
        M[:, 0, :, 0] = f * X['0s'][pe1 + pe2]
        M[:, 1, :, 1] = f * X['0s'][pb1 + pb2]
        pp = []
    else:
        pp = [(pe1, pe2), (pe1, pb2), (pb1, pe2), (pb1, pb2)]
        o = 0
    for k, (a, b) in enumerate(pp):
        M[:, o + k, :, o + k] = f * X['p'][a + b]
        M[:, o + k, :, o + 3 - k] = f * X['m'][a + b] * (1 if k in (0, 3) else -1)
    lo = max(s1, s2)
    if not teb and lo:
        pass
    return M.reshape((lmax + 1) * n, (lmax + 1) * n)



# ---- ensemble average of the pseudo-spectra, from explicit masking of every mode on an exact quadrature grid
def _nalm(L):
    return (L + 1) * (L + 2) // 2


def synth(alm, spin, L, nt, nph):
    import ducc0
    return ducc0.sht.synthesis_2d(alm=np.ascontiguousarray(alm), spin=spin, lmax=L, geometry='GL', ntheta=nt, nphi=nph, mmax=L)


def analys(m, spin, L):
    import ducc0
    return ducc0.sht.analysis_2d(map=np.ascontiguousarray(m), spin=spin, lmax=L, geometry='GL', mmax=L)


def rand_alm(rng, ncomp, L, lmin=0):
    import healpy as hp
    l, m = hp.Alm.getlm(L)
    a = rng.normal(size=(ncomp, _nalm(L))) + 1j * rng.normal(size=(ncomp, _nalm(L)))
    a[:, m == 0] = a[:, m == 0].real
    a[:, l < lmin] = 0
    return a / (1 + l)


def ensemble_mcm(W1, W2, s1, s2, lmax, L1):
    """W: callable-free weight matrices on a GL grid: [w] (spin 0) or 2x2 (spin s); returns the matrix
    <PCl^{ij}_{l2}> / C^{ab}_{l3}, by masking every real mode and transforming it"""
    import healpy as hp
    nt, nph = lmax + L1 + 2 + lmax, 2 * (2 * lmax + L1) + 3
    l, m = hp.Alm.getlm(lmax)

    def resp(W, s):
        n = 2 if s else 1
        out = {}
        for a in range(n):
            for k in range(len(l)):
                if l[k] < s: continue
                for ph in ((1.,) if m[k] == 0 else (1 / np.sqrt(2), 1j / np.sqrt(2))):
                    alm = np.zeros((n, len(l)), complex); alm[a, k] = ph
                    mp = synth(alm, s, lmax, *W.shape[-2:])
                    mp = (W * mp)[:1] if n == 1 else np.einsum('ijtp,jtp->itp', W, mp)
                    out.setdefault((a, l[k]), []).append(analys(mp, s, lmax))
        return {k: np.array(v) for k, v in out.items()}
    r1, r2 = resp(W1, s1), resp(W2, s2)
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    n = n1 * n2
    M = np.zeros((lmax + 1, n, lmax + 1, n))
    for a in range(n1):
        for b in range(n2):
            for l3 in range(max(s1, s2), lmax + 1):
                A, B = r1[(a, l3)], r2[(b, l3)]
                for i in range(n1):
                    for j in range(n2):
                        x = (A[:, i] * B[:, j].conj()).real.sum(0)
                        for l2 in range(max(s1, s2), lmax + 1):
                            t = (x * (l == l2) * np.where(m > 0, 2, 1)).sum()
                            M[l2, i * n2 + j, l3, a * n2 + b] = t / (2 * l2 + 1)
    return M.reshape((lmax + 1) * n, (lmax + 1) * n)


def ensemble_case(rng, s1, s2, a1, a2, lmax, L1, same=False):
    """random band-limited weights; returns weights' spectra and the ensemble matrix"""
    import healpy as hp
    nt, nph = 2 * lmax + L1 + 2, 2 * (2 * lmax + L1) + 3

    def weight(s, an):
        w = rand_alm(rng, 1, L1)
        q = rand_alm(rng, 2, L1, 2 * s) if an else None
        wm = synth(w, 0, L1, nt, nph)[0]
        if not s: return w[0], None, wm[None]
        qm = synth(q, 2 * s, L1, nt, nph) if an else np.zeros((2,) + wm.shape)
        return w[0], q, np.array([[wm + qm[0], qm[1]], [qm[1], wm - qm[0]]])
    w1, q1, W1 = weight(s1, a1)
    w2, q2, W2 = (w1, q1, W1) if same else weight(s2, a2)
    z = np.zeros(L1 + 1)
    cl = lambda a, b: z if a is None or b is None else hp.alm2cl(a, b)
    g = lambda q, i: None if q is None else q[i]
    p = dict(zip('00 0e 0b e0 b0 ee eb be bb'.split(), [cl(w1, w2), cl(w1, g(q2, 0)), cl(w1, g(q2, 1)), cl(g(q1, 0), w2), cl(g(q1, 1), w2),
             cl(g(q1, 0), g(q2, 0)), cl(g(q1, 0), g(q2, 1)), cl(g(q1, 1), g(q2, 0)), cl(g(q1, 1), g(q2, 1))]))
    return p, ensemble_mcm(W1, W2, s1, s2, lmax, L1)
