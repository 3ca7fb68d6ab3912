"""C25 at run time: the same calls under different numbers of threads give the same results (a search for
failing inputs; the property itself is decided by the race obligations)."""
import os, subprocess, sys, tempfile, shutil
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


def work(seed, out):
    import pymaster as nmt, warnings
    warnings.simplefilter('ignore')
    from pymaster import nmtlib as lib
    rng = np.random.default_rng(seed)
    R = {}
    ns = int(rng.choice([4, 8])); npix = 12 * ns * ns; lmax = 3 * ns - 1
    th, ph = nmt.utils.hp.pix2ang(ns, np.arange(npix))
    m = (th > rng.uniform(.3, 1.2)).astype(float) * rng.uniform(.5, 1, npix)
    for t in ('C1', 'C2', 'Smooth'): R['apo' + t] = nmt.mask_apodization(m, float(rng.uniform(25, 40)) * 8 / ns, t)
    e = np.unique(rng.integers(2, lmax + 2, 6)); e = np.append(e[:-1], lmax + 1) if e[-1] != lmax + 1 else e
    b = nmt.NmtBin.from_edges(e[:-1], e[1:])
    f0 = nmt.NmtField(m, [rng.normal(size=npix)], n_iter=0); f2 = nmt.NmtField(m, rng.normal(size=(2, npix)), n_iter=0, purify_b=bool(rng.integers(0, 2)))
    fa = nmt.NmtField(m, rng.normal(size=(2, npix)), mask_22=m * .8, mask_12=m * .1, n_iter=0)
    for i, (x, y, k) in enumerate([(f0, f0, {}), (f0, f2, {}), (f2, f2, {}), (f0, f2, dict(is_teb=True)), (f0, f0, dict(l_toeplitz=lmax // 2, l_exact=lmax // 3, dl_band=lmax // 4)), (fa, fa, {}), (f0, fa, {})]):
        w = nmt.NmtWorkspace.from_fields(x, y, b, **k)
        R['mcm%d' % i] = w.get_coupling_matrix(); R['win%d' % i] = w.get_bandpower_windows()
        n = R['mcm%d' % i].shape[0] // (lmax + 1); cl = np.abs(rng.normal(size=(n, lmax + 1)))
        R['cc%d' % i] = w.couple_cell(cl); R['dc%d' % i] = w.decouple_cell(cl)
        if i == 0: w0 = w
        if i == 2: w2 = w
    cw = nmt.NmtCovarianceWorkspace.from_fields(f0, f0); cl = np.abs(rng.normal(size=(1, lmax + 1)))
    for c in (False, True): R['cov%d' % c] = nmt.gaussian_covariance(cw, 0, 0, 0, 0, cl, cl, cl, cl, w0, coupled=c)
    cw = nmt.NmtCovarianceWorkspace.from_fields(f0, f0, l_toeplitz=lmax // 2, l_exact=lmax // 3, dl_band=lmax // 4)
    cl = rng.normal(size=(4, lmax + 1)); R['cov2'] = nmt.gaussian_covariance(cw, 2, 2, 2, 2, cl, cl, cl, cl, w2)
    nx, ny = [int(k) for k in rng.integers(8, 20, 2)]; lx, ly = rng.uniform(.1, .5, 2)
    mf = rng.uniform(.1, 1, (ny, nx)) * (rng.uniform(size=(ny, nx)) > .1)
    for t in ('C1', 'C2', 'Smooth'): R['apof' + t] = nmt.mask_apodization_flat(mf, lx, ly, float(np.degrees(lx) * .2), t)
    cl = np.exp(-np.arange(2000) / 500.); z = 0 * cl
    q = nmt.synfast_flat(nx, ny, lx, ly, np.array([cl, z, z, cl, z, cl]), [0, 2], seed=3); R['syn'] = q
    g0 = nmt.NmtFieldFlat(lx, ly, mf, q[:1]); g2 = nmt.NmtFieldFlat(lx, ly, mf, q[1:], purify_b=bool(rng.integers(0, 2)), templates=rng.normal(size=(2, 2, ny, nx)))
    R['maps'] = g2.get_maps(); R['temp'] = g2.get_templates()
    k = 2 * np.pi / min(lx, ly) * min(nx, ny) / 2; ed = np.linspace(0, k, 4); bf = nmt.NmtBinFlat(ed[:-1], ed[1:])
    for i, (x, y) in enumerate([(g0, g0), (g0, g2), (g2, g2)]):
        w = nmt.NmtWorkspaceFlat(); w.compute_coupling_matrix(x, y, bf); n = x.fl.nmaps * y.fl.nmaps
        R['fd%d' % i] = w.decouple_cell(np.arange(1., 1 + 3 * n).reshape(n, 3)); R['fc%d' % i] = nmt.compute_coupled_cell_flat(x, y, bf)
        R['fcc%d' % i] = w.couple_cell(bf.get_effective_ells(), np.arange(1., 1 + 3 * n).reshape(n, 3)); ell = np.arange(3.) * k / 2
        R['fb%d' % i] = nmt.deprojection_bias_flat(x, y, bf, ell, np.ones((n, 3)))
        if i == 0:
            cf = nmt.NmtCovarianceWorkspaceFlat(); cf.compute_coupling_coefficients(x, y, bf)
            c1 = np.ones((1, 3)); R['fcov'] = nmt.gaussian_covariance_flat(cf, 0, 0, 0, 0, ell, c1, c1, c1, c1, w)
    np.savez(out, **R)


def run(c):
    tmp = tempfile.mkdtemp(prefix='nmtv25')
    try:
        K = 0
        while c.more() and K < (40 if c.thorough else 3):
            K += 1
            seed = int(c.rng.integers(0, 10 ** 6)); ref = None
            ps = []
            nts = [1, 2, 3, 8, 8]
            for i, nt in enumerate(nts):
                e = dict(os.environ); e['OMP_NUM_THREADS'] = str(nt); e['DUCC0_NUM_THREADS'] = '1'
                ps.append(subprocess.Popen([sys.executable, '-c', 'import sys;from conc.c25 import work;work(%d,%r)' % (seed, os.path.join(tmp, '%d.npz' % i))], env=e, cwd=tmp, stderr=subprocess.PIPE, text=True))
            for i, (nt, p) in enumerate(zip(nts, ps)):
                err = p.communicate(timeout=300)[1]
                c.case(seed=seed, threads=nt)
                if not c.true('the calls succeed', p.returncode == 0, err[-600:]): continue
                d = dict(np.load(os.path.join(tmp, '%d.npz' % i)))
                if ref is None: ref = d; continue
                for k in d:
                    s = np.abs(ref[k]).max()
                    c.close('same result for every number of threads: ' + k.rstrip('0123456789'), d[k], ref[k], 1e-7 if k.startswith(('win', 'dc', 'cov', 'fd', 'fcov')) else 1e-10, scale=s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
