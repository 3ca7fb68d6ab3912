"""Workspace results depend only on the current beams, bins and matrix."""
import numpy as np
import pymaster as nmt
from .c06 import Ref, rand_bins, rand_field, rand_matrix, check_all, rand_wsp


def run(c):
    rng = c.rng
    for it in range(260 if c.thorough else 60):
        if not c.more(): break
        fkp = it % 5 == 4
        w, b, bp, w2, lmax, sp = rand_wsp(rng, it, fkp)
        n = w.wsp.ncls
        nl = n * (lmax + 1)
        M = w.get_coupling_matrix()
        hist = []
        for step in range(int(rng.integers(1, 7))):
            op = ['beams', 'bins', 'matrix', 'read', 'badbeams', 'badbins', 'badmatrix', 'badcl', 'badbeamtype'][rng.integers(0, 9)]
            hist.append(op)
            c.case(kind='history', spins=sp, lmax=lmax, fkp=fkp, ops=list(hist), it=it)
            if op == 'beams':
                x1, x2 = rng.uniform(.3, 1.5, (2, lmax + 1 + int(rng.integers(0, 3))))
                w.update_beams(x1, list(x2) if rng.integers(0, 2) else x2)
                bp = (x1 * x2)[:lmax + 1]
            elif op == 'bins':
                b, nb = rand_bins(rng, lmax, wild=bool(rng.integers(0, 2)))
                w.update_bins(b)
            elif op == 'matrix':
                M = rand_matrix(rng, nl)
                w.update_coupling_matrix(M.copy())
            elif op == 'read':
                cl = rng.normal(size=(n, lmax + 1))
                w.couple_cell(cl); w.decouple_cell(cl); w.get_bandpower_windows(); X = w.get_coupling_matrix(); X[:] = -7
            elif op == 'badbeams':
                x1 = rng.uniform(.3, 1.5, lmax + 1)
                for a, d in ((x1[:-1], x1), (x1, x1[:-1]), (x1[:-1], x1[:-1])):
                    c.raises('short beams are refused', lambda: w.update_beams(a, d))
            elif op == 'badbeamtype':
                c.raises('beams that are not arrays are refused', lambda: w.update_beams(1., np.ones(lmax + 1)))
            elif op == 'badbins':
                for L in (lmax - 1, lmax + 1):
                    c.raises('bins with another lmax are refused', lambda: w.update_bins(rand_bins(rng, L)[0]))
            elif op == 'badmatrix':
                for sh in ((nl - 1, nl - 1), (nl + 1, nl + 1), (nl, nl - 1), (nl, nl + 1)):
                    c.raises('matrices of another size are refused', lambda: w.update_coupling_matrix(np.ones(sh)))
            elif op == 'badcl':
                for sh in ((n + 1, lmax + 1), (n, lmax)):
                    c.raises('spectra of another shape are refused', lambda: w.couple_cell(np.ones(sh)))
                    c.raises('spectra of another shape are refused', lambda: w.decouple_cell(np.ones(sh)))
            if rng.integers(0, 3) and step < 4: continue
            R = Ref(M, n, lmax, b, bp, w2 if fkp else None)
            if R.cond > 1e6: continue
            cl, ns, bs = rng.normal(size=(3, n, lmax + 1))
            check_all(c, w, R, cl, ns, bs)
        # rerunning compute_coupling_matrix on a used object
        if it % 6 == 0:
            lm = 8
            b, nb = rand_bins(rng, lm)
            s = [(0, 0), (0, 2), (2, 2)][it // 6 % 3]
            f1, m1, b1 = rand_field(rng, lm, s[0]); f2, m2, b2 = rand_field(rng, lm, s[1])
            c.case(kind='recompute', spins=s, it=it)
            w.compute_coupling_matrix(f1, f2, b)
            w0 = nmt.NmtWorkspace.from_fields(f1, f2, b)
            n = w.wsp.ncls
            cl = rng.normal(size=(n, lm + 1))
            c.close('recomputed workspace', w.get_coupling_matrix(), w0.get_coupling_matrix(), 1e-12)
            c.close('recomputed workspace decouples', w.decouple_cell(cl), w0.decouple_cell(cl), 1e-9)
            c.close('recomputed workspace couples', w.couple_cell(cl), w0.couple_cell(cl), 1e-12)
    # the workspace keeps its own copy of the beams, bins and matrix it is given
    for it in range(10):
        if not c.more(): break
        w, b, bp, w2, lmax, sp = rand_wsp(rng, it)
        n = w.wsp.ncls
        M = rand_matrix(rng, n * (lmax + 1)); M0 = M.copy()
        x1, x2 = rng.uniform(.5, 1, (2, lmax + 1)); bp = x1 * x2
        c.case(kind='copies', spins=sp, it=it)
        w.update_coupling_matrix(M); w.update_beams(x1, x2)
        M[:] = 3; x1[:] = 9
        R = Ref(M0, n, lmax, b, bp)
        del b
        if R.cond > 1e6: continue
        cl = rng.normal(size=(n, lmax + 1))
        check_all(c, w, R, cl, cl * 0, cl * 0)
