"""FITS round trips and file faults of workspaces and covariance workspaces."""
import os, shutil, subprocess, sys, tempfile, warnings
import numpy as np
import pymaster as nmt
from pymaster import nmtlib as lib
from .c06 import Ref, rand_bins, rand_wsp, rand_matrix, check_all
from .c09 import wsp_for


def wild_bins(rng, lmax):
    """bands may share multipoles and list them in any order"""
    nb = int(rng.integers(1, 4))
    ells, bp = [], []
    for i in range(nb):
        e = rng.permutation(lmax + 1)[:int(rng.integers(1, lmax))]
        ells += list(e); bp += [i] * len(e)
    p = rng.permutation(len(ells))
    return nmt.NmtBin(ells=np.array(ells, np.int32)[p], bpws=np.array(bp, np.int32)[p], weights=rng.uniform(.2, 2, len(ells)),
                      f_ell=rng.uniform(.2, 2, len(ells)), lmax=lmax), nb


def flat_fields(rng, same=False):
    nx, ny = int(rng.integers(8, 14)), int(rng.integers(8, 14))
    lx, ly = rng.uniform(.05, .3, 2)
    ms = rng.uniform(.2, 1, (2, ny, nx))
    sp = [int(x) for x in rng.choice([0, 2], 2)]
    F = [nmt.NmtFieldFlat(lx, ly, ms[i], [rng.normal(size=(ny, nx)) for _ in range(2 if s else 1)]) for i, s in enumerate(sp)]
    lmx = np.pi * min(nx / lx, ny / ly)
    e = np.linspace(0, lmx, int(rng.integers(3, 6)))
    return F, nmt.NmtBinFlat(e[:-1], e[1:]), sp, (lx, ly, nx, ny), lmx


RL = """
import sys, resource, signal
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
import numpy as np, pymaster as nmt
import warnings; warnings.simplefilter('ignore')
kind, src, dst, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
if kind == 'w': x = nmt.NmtWorkspace.from_file(src)
elif kind == 'c': x = nmt.NmtCovarianceWorkspace.from_file(src)
elif kind == 'wf': x = nmt.NmtWorkspaceFlat(); x.read_from(src)
else: x = nmt.NmtCovarianceWorkspaceFlat(); x.read_from(src)
resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
try:
    x.write_to(dst)
except RuntimeError as e:
    sys.exit(7)
sys.exit(0)
"""


def faults(c, rng, kind, fn, read, reads_other, d):
    """damaged files are refused (or the values are intact), and the library stays usable"""
    from astropy.io import fits
    data = open(fn, 'rb').read()
    bad = os.path.join(d, 'bad.fits')
    with fits.open(fn) as h:
        names = [(i, x.name) for i, x in enumerate(h)]
        ends = [(x.fileinfo()['hdrLoc'], x.fileinfo()['datLoc'], x.fileinfo()['datLoc'] + x.size) for x in h]
    last = ends[-1][2]
    cuts = [0, 100, 2880]
    for hl, dl, en in ends:
        cuts += [hl, hl + 400, dl, (dl + en) // 2, en - 4]
    for n in sorted({x for x in cuts if 0 <= x < last}):
        c.case(kind='truncated ' + kind, bytes=n, of=len(data))
        open(bad, 'wb').write(data[:n])
        c.raises('a truncated file is refused', lambda: read(bad), RuntimeError)
    for i, nm in names:
        if i == 0 and kind != 'flat covariance': pass
        c.case(kind='missing HDU ' + kind, hdu=nm or str(i))
        with fits.open(fn) as h:
            l = [x.copy() for k, x in enumerate(h) if k != i]
            if not l or (i == 0 and not nm): continue
            if i == 0:
                x0 = l[0]
                l = [fits.PrimaryHDU()] + [x if not isinstance(x, fits.PrimaryHDU) else fits.ImageHDU(x.data, x.header) for x in l]
            fits.HDUList(l).writeto(bad, overwrite=True)
        c.raises('a file without one of its tables is refused', lambda: read(bad), RuntimeError)
    c.case(kind='missing file ' + kind)
    c.raises('a missing file is refused', lambda: read(os.path.join(d, 'none.fits')), RuntimeError)
    c.raises('a long missing name is refused', lambda: read(os.path.join(d, 'x' * 2000)), RuntimeError)
    c.raises('a directory is refused', lambda: read(d), RuntimeError)
    open(bad, 'wb').write(rng.bytes(6000))
    c.raises('garbage is refused', lambda: read(bad), RuntimeError)
    for nm, r in reads_other:
        c.case(kind='wrong kind: %s read as %s' % (kind, nm))
        c.raises('a file of another kind is refused', lambda: r(fn), RuntimeError)


def write_faults(c, code, fn, obj, d):
    c.case(kind='unwritable ' + code)
    c.raises('an unwritable path is refused', lambda: obj.write_to(os.path.join(d, 'no', 'such.fits')), RuntimeError)
    size = os.path.getsize(fn)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
    for n in (2880, size // 2):    # (CFITSIO itself loses failures of the very last stdio flush)
        c.case(kind='file size limit ' + code, limit=n, size=size)
        dst = os.path.join(d, 'lim.fits')
        r = subprocess.run([sys.executable, '-c', RL, code, fn, dst, str(n)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        c.true('an incomplete write raises an error', r.returncode == 7, 'child ended with %d (7: refused)' % r.returncode)
        if os.path.exists(dst): os.unlink(dst)


def run(c):
    d = tempfile.mkdtemp(prefix='nmtv_c08_')
    try:
        warnings.simplefilter('ignore')
        go(c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rd_flat(fn):
    w = nmt.NmtWorkspaceFlat(); w.read_from(fn); return w


def rd_cflat(fn):
    w = nmt.NmtCovarianceWorkspaceFlat(); w.read_from(fn); return w


READ = dict(w=nmt.NmtWorkspace.from_file, c=nmt.NmtCovarianceWorkspace.from_file, wf=rd_flat, cf=rd_cflat)


def go(c, d):
    rng = c.rng
    fn = os.path.join(d, 'w.fits')
    for it in range(160 if c.thorough else 45):
        if not c.more(): break
        fkp = it % 4 == 3
        w, b, bp, w2, lmax, sp = rand_wsp(rng, it, fkp)
        n = w.wsp.ncls
        over = it % 3 == 2
        if over:
            b, nb = wild_bins(rng, lmax); w.update_bins(b)
        M = w.get_coupling_matrix()
        if it % 2:
            M = rand_matrix(rng, n * (lmax + 1)); w.update_coupling_matrix(M)
        R = Ref(M, n, lmax, b, bp, w2 if fkp else None)
        if R.cond > 1e6: continue
        c.case(kind='workspace round trip', spins=sp, lmax=lmax, fkp=fkp, shared=over, bands=[b.get_ell_list(i) for i in range(b.get_n_bands())], it=it)
        if os.path.exists(fn) and it % 2: os.unlink(fn)
        w.write_to(fn)
        cl, ns, bs = rng.normal(size=(3, n, lmax + 1))
        for unb in (True, False):
            v = nmt.NmtWorkspace.from_file(fn, read_unbinned_MCM=unb)
            if unb and it % 4 == 0:
                v = nmt.NmtWorkspace(); v.read_from(fn)
            tag = ' after reading' if unb else ' after reading without the unbinned matrix'
            c.true('number of spectra' + tag, v.wsp.ncls == n and v.wsp.lmax == lmax)
            tol = 1e-12 * R.cond if over else 1e-13
            c.close('decoupling' + tag, v.decouple_cell(cl, cl_noise=ns, cl_bias=bs), w.decouple_cell(cl, cl_noise=ns, cl_bias=bs), tol)
            if over and unb:
                c.close('windows' + tag, v.get_bandpower_windows(), w.get_bandpower_windows(), tol)
                c.close('coupling' + tag, v.couple_cell(cl), w.couple_cell(cl), 1e-13)
                c.close('coupling matrix' + tag, v.get_coupling_matrix(), M, 1e-13)
                w2_ = nmt.NmtWorkspace.from_file(fn); w2_.update_beams(bp, np.ones(lmax + 1))
                c.close('decoupling after reading and rebinning', w2_.decouple_cell(cl), w.decouple_cell(cl), tol)
            if not over: check_all(c, v, R, cl, ns, bs, tag, unbinned=unb)
            if not unb:
                c.raises('unbinned operations are refused' + tag, lambda: v.couple_cell(cl))
                c.raises('unbinned operations are refused' + tag, lambda: v.get_bandpower_windows())
                c.raises('unbinned operations are refused' + tag, lambda: v.get_coupling_matrix())
                c.raises('unbinned operations are refused' + tag, lambda: v.write_to(fn + 'x'))
                c.raises('unbinned operations are refused' + tag, lambda: v.update_beams(np.ones(lmax + 1), np.ones(lmax + 1)))
                c.raises('unbinned operations are refused' + tag, lambda: v.update_bins(b))
                continue
            # still consistent when used further
            x1 = rng.uniform(.3, 1.5, lmax + 1)
            b2, _ = rand_bins(rng, lmax)
            v.update_beams(x1, x1); v.update_bins(b2)
            R2 = Ref(M, n, lmax, b2, x1 * x1, w2 if fkp else None)
            if R2.cond < 1e6: check_all(c, v, R2, cl, ns, bs, ' after reading and rebinning')
            f2 = fn + '2'
            v.write_to(f2)
            u = nmt.NmtWorkspace.from_file(f2)
            if R2.cond < 1e6: check_all(c, u, R2, cl, ns, bs, ' after a second round trip')
    if c.failures: return
    # covariance workspaces
    fc = os.path.join(d, 'c.fits')
    for it in range(24 if c.thorough else 10):
        if not c.more(): break
        lcw, L1 = int(rng.integers(4, 9)), int(rng.integers(3, 12))
        p1, p2 = rng.normal(size=(2, L1 + 1))
        s0 = it % 3 == 2
        cw = nmt.NmtCovarianceWorkspace(); cw.wsp = lib.covar_workspace_init_py(p1, p2, lcw, L1, -1, -1, -1, int(s0))
        c.case(kind='covariance round trip', lmax=lcw, lmax_mask=L1, spin0_only=s0, p1122=p1, p1221=p2, it=it)
        cw.write_to(fc)
        for force in (False, True):
            v = nmt.NmtCovarianceWorkspace.from_file(fc, force_spin0_only=force)
            for sp in ((0, 0, 0, 0), (0, 2, 0, 2), (2, 2, 2, 2)):
                wa, Ra = wsp_for(rng, sp[:2], lcw)
                nm = [2 if s else 1 for s in sp]
                cls = [rng.normal(size=(nm[i] * nm[j], lcw + 1)) for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]
                f = lambda x, cp: nmt.gaussian_covariance(x, *sp, *cls, wa, coupled=cp)
                if any(sp) and (s0 or force):
                    c.raises('spin covariances are refused after reading spin-0 coefficients', lambda: f(v, False))
                    continue
                for cp in (False, True):
                    c.close('covariance after reading', f(v, cp), f(cw, cp), 1e-12)
            if s0 or force:
                v.write_to(fc + '2'); nmt.NmtCovarianceWorkspace.from_file(fc + '2')
    # flat
    fw, ff = os.path.join(d, 'wf.fits'), os.path.join(d, 'cf.fits')
    for it in range(40 if c.thorough else 14):
        if not c.more(): break
        F, b, sp, geo, lmx = flat_fields(rng)
        kw = {}
        if it % 2: kw = dict(ell_cut_x=[lmx * .3, lmx * .5], ell_cut_y=[-lmx * .5, -lmx * .45])
        c.case(kind='flat round trip', spins=sp, geometry=geo, it=it)
        w = nmt.NmtWorkspaceFlat()
        teb = it % 5 == 4 and sp[0] != sp[1]
        if teb: F = sorted(F, key=lambda f: f.fl.spin)
        w.compute_coupling_matrix(F[0], F[1], b, is_teb=teb, **kw)
        try:
            w.decouple_cell(np.ones((w.wsp.ncls, b.get_n_bands())))
        except RuntimeError:
            continue    # a band without modes: nothing to decouple
        w.write_to(fw)
        v = rd_flat(fw)
        n = w.wsp.ncls; nb = b.get_n_bands()
        x, y, z = rng.normal(size=(3, n, nb))
        c.close('flat decoupling after reading', v.decouple_cell(x, cl_bias=y, cl_noise=z), w.decouple_cell(x, cl_bias=y, cl_noise=z), 1e-12)
        l = np.linspace(0, lmx * 1.1, 30); t = rng.normal(size=(n, 30))
        c.close('flat coupling after reading', v.couple_cell(l, t), w.couple_cell(l, t), 1e-13)
        v.write_to(fw); u = rd_flat(fw)
        c.close('flat decoupling after two round trips', u.decouple_cell(x), w.decouple_cell(x), 1e-12)
        if teb: continue
        cw = nmt.NmtCovarianceWorkspaceFlat()
        cw.compute_coupling_coefficients(F[0], F[1], b)
        cw.write_to(ff); v = rd_cflat(ff)
        ss = sp + sp; nm = [2 if s else 1 for s in ss]
        cls = [rng.normal(size=(nm[i] * nm[j], 30)) for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]
        for wx in (w, u):
            c.close('flat covariance after reading', nmt.gaussian_covariance_flat(v, *ss, l, *cls, wx), nmt.gaussian_covariance_flat(cw, *ss, l, *cls, w), 1e-12)
    if c.failures: return
    # damaged, missing and unwritable files
    R = [('workspace', fn, 'w'), ('covariance', fc, 'c'), ('flat workspace', fw, 'wf'), ('flat covariance', ff, 'cf')]
    w.write_to(fw)
    objs = {}
    for nm, f, k in R:
        objs[k] = READ[k](f)
    for nm, f, k in R:
        if not c.more(): break
        faults(c, rng, nm, f, READ[k], [(o, READ[ok]) for o, _, ok in R if ok != k], d)
        write_faults(c, k, f, objs[k], d)
    # the library still works
    c.case(kind='after faults')
    w = nmt.NmtWorkspace.from_file(fn)
    c.true('later valid reads work', w.wsp.ncls > 0)
