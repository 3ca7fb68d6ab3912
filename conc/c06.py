"""Coupling, binned matrix, decoupling and windows of a workspace against their definitions."""
import numpy as np
import pymaster as nmt
from pymaster import nmtlib as lib


def rand_bins(rng, lmax, nb=None, wild=True):
    """every scheme: bands in any order, gaps, multipoles 0 and 1, any weights and ell factors"""
    nb = nb or int(rng.integers(1, max(2, lmax // 2)))
    while True:
        l = rng.permutation(lmax + 1)
        bp = rng.integers(-1 if wild else 0, nb, lmax + 1)
        if not wild: bp = np.sort(bp)
        if np.all(np.isin(np.arange(nb), bp)): break
    wt = rng.uniform(.2, 2, lmax + 1)
    f = rng.uniform(.2, 3, lmax + 1) if rng.integers(0, 2) else np.ones(lmax + 1)
    return nmt.NmtBin(ells=l.astype(np.int32), bpws=bp.astype(np.int32), weights=wt, f_ell=f, lmax=lmax), nb


def bin_mats(b, lmax):
    """(nb x nl) binning operator with ell factors, (nl x nb) unbinning operator, read through the public interface"""
    nb = b.get_n_bands()
    B = np.zeros((nb, lmax + 1)); U = np.zeros((lmax + 1, nb))
    for i in range(nb):
        e = b.get_ell_list(i)
        x = np.zeros((1, lmax + 1))
        for l in e:
            x[:] = 0; x[0, l] = 1
            B[i, l] = b.bin_cell(x)[0, i]
        y = np.zeros((1, nb)); y[0, i] = 1
        u = b.unbin_cell(y)[0]
        U[e, i] = u[e]
    return B, U


class Ref:
    def __init__(self, M, ncls, lmax, b, beam, fkp=None):
        self.n, self.lmax, self.b = ncls, lmax, b
        self.M = M.reshape(lmax + 1, ncls, lmax + 1, ncls)
        self.beam = np.asarray(beam)[:lmax + 1]
        self.B, self.U = bin_mats(b, lmax)
        self.nb = self.B.shape[0]
        self.R = np.einsum('al,limj,m->aimj', self.B, self.M, self.beam)
        if fkp is None:
            self.K = np.einsum('aimj,mb->aibj', self.R, self.U)
        else:
            self.K = fkp * np.eye(self.nb * ncls).reshape(self.nb, ncls, self.nb, ncls)
        self.Kf = self.K.reshape(self.nb * ncls, -1)
        self.cond = np.linalg.cond(self.Kf)

    def couple(self, cl): return np.einsum('limj,m,jm->il', self.M, self.beam, np.asarray(cl)[:, :self.lmax + 1])

    def solve(self, v): return np.linalg.solve(self.Kf, v)

    def decouple(self, cl):
        v = np.einsum('al,il->ai', self.B, np.asarray(cl)[:, :self.lmax + 1]).ravel()
        return self.solve(v).reshape(self.nb, self.n).T

    def windows(self):
        w = self.solve(self.R.reshape(self.nb * self.n, -1)).reshape(self.nb, self.n, self.lmax + 1, self.n)
        return w.transpose(1, 0, 3, 2)


SP = [(0, 0, 0), (0, 2, 0), (2, 2, 0), (2, 0, 0), (0, 2, 1), (1, 2, 0), (0, 1, 0), (2, 1, 0), (0, 1, 1)]


def rand_field(rng, lmax, spin, nside=8, **k):
    m = rng.uniform(.3, 1, 12 * nside ** 2)
    beam = rng.uniform(.4, 1, lmax + 1)
    return nmt.NmtField(m, None, spin=spin, beam=beam, lmax=lmax, **k), m, beam


def rand_matrix(rng, n):
    return np.diag(rng.uniform(1, 2, n)) + rng.normal(size=(n, n)) * .3 / np.sqrt(n)


def rand_wsp(rng, it, fkp=False):
    s1, s2, teb = SP[it % len(SP)]
    lmax = int(rng.integers(6, 14))
    b, nb = rand_bins(rng, lmax, wild=bool(it % 2))
    f1, m1, b1 = rand_field(rng, lmax, s1)
    f2, m2, b2 = rand_field(rng, lmax, s2)
    if it % 5 == 1 and s1 == s2: f2, m2, b2 = f1, m1, b1
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=bool(teb), normalization='FKP' if fkp else 'MASTER')
    return w, b, b1 * b2, np.mean(m1 * m2), lmax, (s1, s2, teb)


def check_all(c, w, R, cl, ns, bs, tag='', tol=1e-9, unbinned=True):
    t = tol * max(1, R.cond)
    want = R.decouple(cl - ns - bs)
    c.close('decouple solves the binned system' + tag, w.decouple_cell(cl, cl_noise=ns, cl_bias=bs), want, t)
    if not unbinned:
        return
    c.close('couple applies the beam-weighted matrix' + tag, w.couple_cell(cl), R.couple(cl), tol)
    W = R.windows()
    c.close('windows' + tag, w.get_bandpower_windows(), W, t)
    c.close('coupling matrix' + tag, w.get_coupling_matrix(), R.M.reshape(R.n * (R.lmax + 1), -1), 1e-13)


def run(c):
    rng = c.rng
    for it in range(400 if c.thorough else 90):
        if not c.more(): break
        fkp = it % 4 == 3
        w, b, bp, w2, lmax, sp = rand_wsp(rng, it, fkp)
        n = w.wsp.ncls
        nl = n * (lmax + 1)
        mode = it % 3
        M = w.get_coupling_matrix()
        if mode == 0:
            M = rand_matrix(rng, nl)
            w.update_coupling_matrix(M)
        R = Ref(M, n, lmax, b, bp, w2 if fkp else None)
        c.case(kind='workspace', spins=sp, lmax=lmax, fkp=fkp, matrix='arbitrary' if mode == 0 else 'of the fields',
               bands=[b.get_ell_list(i) for i in range(R.nb)], it=it)
        if R.cond > 1e6: continue
        extra = int(rng.integers(0, 4))
        cl, ns, bs = rng.normal(size=(3, n, lmax + 1 + extra))
        check_all(c, w, R, cl, ns, bs)
        c.close('decouple without noise and bias', w.decouple_cell(cl), R.decouple(cl), 1e-9 * R.cond)
        # windows applied to a spectrum are its coupled-then-decoupled bandpowers
        t = rng.normal(size=(n, lmax + 1))
        c.close('decouple(couple) equals windows', w.decouple_cell(w.couple_cell(t)), np.einsum('ibjl,jl->ib', w.get_bandpower_windows(), t), 1e-9 * R.cond)
        if not fkp:
            y = rng.normal(size=(n, R.nb))
            z = np.einsum('lb,ib->il', R.U, y)
            c.close('constant-in-band spectra are recovered', w.decouple_cell(w.couple_cell(z)), y, 1e-9 * R.cond)
        # compute_full_master / coupled pieces use the same workspace
    for it in range(6):
        if not c.more(): break
        s1, s2 = [(0, 0), (0, 2), (2, 2)][it % 3]
        lmax = 10
        b, nb = rand_bins(rng, lmax, wild=bool(it % 2))
        ns = 4
        npx = 12 * ns ** 2
        f1 = nmt.NmtField(rng.uniform(.3, 1, npx), rng.normal(size=(2 if s1 else 1, npx)), spin=s1, lmax=lmax)
        f2 = nmt.NmtField(rng.uniform(.3, 1, npx), rng.normal(size=(2 if s2 else 1, npx)), spin=s2, lmax=lmax)
        w = nmt.NmtWorkspace.from_fields(f1, f2, b)
        n = w.wsp.ncls
        nse = rng.normal(size=(n, lmax + 1))
        c.case(kind='compute_full_master', spins=(s1, s2), it=it)
        pc = nmt.compute_coupled_cell(f1, f2)
        R = Ref(w.get_coupling_matrix(), n, lmax, b, np.ones(lmax + 1))
        if R.cond > 1e6: continue
        want = R.decouple(pc - nse)
        c.close('compute_full_master is decouple of the coupled spectrum minus noise', nmt.compute_full_master(f1, f2, b, cl_noise=nse), want, 1e-8 * R.cond)
        c.close('compute_full_master with a workspace', nmt.compute_full_master(f1, f2, b, cl_noise=nse, workspace=w), want, 1e-8 * R.cond)
