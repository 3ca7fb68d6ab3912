"""Flat-sky pseudo-spectra: full-plane average against numpy."""
import numpy as np
import pymaster as nmt
from .flat import *


def run(c):
    rng = c.rng
    K = 0
    old = None
    while c.more() and K < (20000 if c.thorough else 900):
        K += 1
        P = rand_patch(rng, big=16)
        s1, s2 = [int(k) for k in rng.integers(0, 4, 2)]
        l0, lf = rand_bands(rng, P)
        if K % 6 == 0:
            l0, lf = np.array([0.]), np.array([P.k.max() * 2])
        cx, cy = rand_cuts(rng, P)
        m1, m2 = rand_mask(rng, P), rand_mask(rng, P)
        p1, p2 = rng.normal(size=(2 if s1 else 1, P.ny, P.nx)), rng.normal(size=(2 if s2 else 1, P.ny, P.nx))
        same = K % 4 == 0
        if same: s2, m2, p2 = s1, m1, p1
        c.case(kind='spectrum', nx=P.nx, ny=P.ny, lx=P.lx, ly=P.ly, spins=[s1, s2], l0=l0, lf=lf, cut_x=cx, cut_y=cy, same=same)
        f1 = nmt.NmtFieldFlat(P.lx, P.ly, m1, p1, spin=s1, lite=bool(rng.integers(0, 2)))
        f2 = f1 if same else nmt.NmtFieldFlat(P.lx, P.ly, m2, p2, spin=s2)
        b = nmt.NmtBinFlat(l0, lf)
        got = nmt.compute_coupled_cell_flat(f1, f2, b, ell_cut_x=cx, ell_cut_y=cy)
        want = P.cls(P.m2a(p1 * m1, s1), P.m2a(p2 * m2, s2), l0, lf, cx, cy)
        sc = 4 * np.pi ** 2 / (P.lx * P.ly) * max(np.abs(P.m2a(p1 * m1, s1)).max() * np.abs(P.m2a(p2 * m2, s2)).max(), 1e-300)
        c.close('mean over the selected modes of each band', got, want, 1e-9, scale=sc)
        g2 = nmt.compute_coupled_cell_flat(f2, f1, b, ell_cut_x=cx, ell_cut_y=cy)
        n1, n2 = len(p1), len(p2)
        c.close('exchange of the fields', g2.reshape(n2, n1, -1).transpose(1, 0, 2).reshape(n1 * n2, -1), got, 1e-9, scale=sc)
        if old is not None:
            again = nmt.compute_coupled_cell_flat(*old[0], ell_cut_x=old[1], ell_cut_y=old[2])
            c.close('independent of other calls', again, old[3], 1e-12, scale=old[4])
        old = ((f1, f2, b), cx, cy, got, sc)
        if K % 10 == 0:
            Q = Patch(P.nx + 1, P.ny, P.lx, P.ly)
            g = nmt.NmtFieldFlat(Q.lx, Q.ly, np.ones((Q.ny, Q.nx)), np.ones((1, Q.ny, Q.nx)))
            c.raises('different pixels are refused', lambda: nmt.compute_coupled_cell_flat(f1, g, b))
            g = nmt.NmtFieldFlat(P.lx * 1.1, P.ly, m1, p1, spin=s1)
            c.raises('different patches are refused', lambda: nmt.compute_coupled_cell_flat(f1, g, b))
            g = nmt.NmtFieldFlat(P.lx, P.ly, m1, None, spin=s1)
            c.raises('mapless fields are refused', lambda: nmt.compute_coupled_cell_flat(f1, g, b))
