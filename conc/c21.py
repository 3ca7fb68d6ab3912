"""C21: every inconsistent call is refused, leaves its objects usable; the consistent ones around it are accepted."""
import os, tempfile, warnings
import numpy as np
import pymaster as nmt
from .geo import rand_geo, describe, car


def field(rng, g, spin, lmax, lmm, **kw):
    n = 2 if spin else 1
    m = rng.uniform(.2, 1, g.shape); mp = rng.normal(size=(n,) + g.shape)
    return nmt.NmtField(m, mp, spin=spin, wcs=g.wcs, lmax=lmax, lmax_mask=lmm, n_iter=0, n_iter_mask=0, **kw)


def bins(rng, lmax, nb=None):
    nb = nb or int(rng.integers(1, max(2, lmax // 2)))
    e = np.unique(np.linspace(2, lmax + 1, nb + 1).astype(int))
    return nmt.NmtBin.from_edges(e[:-1], e[1:])


def cases_field(rng, g, lmax, lmm):
    n = 2; sh = g.shape; N = int(np.prod(sh)); kw = dict(wcs=g.wcs, lmax=lmax, lmax_mask=lmm, n_iter=0)
    m = rng.uniform(.2, 1, sh); q = rng.normal(size=(2,) + sh); t = rng.normal(size=(2, 2) + sh)
    big = tuple(k + 1 for k in sh)
    F = lambda *a, **k: nmt.NmtField(*a, **{**kw, **k})
    ok = dict(one=lambda: F(m, q[:1]), two=lambda: F(m, q), spin1=lambda: F(m, q, spin=1), temp=lambda: F(m, q, templates=t), beam=lambda: F(m, q, beam=np.ones(lmax + 1)),
              beamlist=lambda: F(m, q, beam=[1.] * (lmax + 1)), longbeam=lambda: F(m, q, beam=np.ones(lmax + 5)), pure=lambda: F(m, q, purify_e=True, purify_b=True),
              maskonly=lambda: F(m, None, spin=0), maskonly2=lambda: F(m, None, spin=2, purify_b=True), lite=lambda: F(m, q, lite=True), temp1=lambda: F(m, q[:1], templates=t[:1, :1]),
              lists=lambda: F(m, [q[0], q[1]], templates=[[t[0, 0], t[0, 1]]]), aniso=lambda: F(m, q, mask_22=m * .9, mask_12=m * .05, lmax_mask=max(lmm, 4)))
    bad = dict(three=lambda: F(m, rng.normal(size=(3,) + sh)), none=lambda: F(m, q[:0]), shape=lambda: F(m, rng.normal(size=(2,) + big)), spin0=lambda: F(m, q, spin=0), spin2=lambda: F(m, q[:1], spin=2),
               nospin=lambda: F(m, None), beamshort=lambda: F(m, q, beam=np.ones(lmax)), beamtype=lambda: F(m, q, beam=1.), beamtype2=lambda: F(m, q, beam='x'), temptype=lambda: F(m, q, templates=1),
               tempcomp=lambda: F(m, q, templates=t[:, :1]), tempshape=lambda: F(m, q, templates=rng.normal(size=(1, 2) + big)), pure1=lambda: F(m, q, spin=1, purify_e=True), pure0=lambda: F(m, q[:1], purify_b=True),
               pure0mask=lambda: F(m, None, spin=0, purify_b=True), pure1mask=lambda: F(m, None, spin=1, purify_e=True), lmax0=lambda: F(m, q[:1], lmax=0), lmaxneg=lambda: F(m, q[:1], lmax=-2), lmmneg=lambda: F(m, q[:1], lmax_mask=-1),
               aniso0=lambda: F(m, q[:1], mask_22=m, mask_12=0 * m), anisohalf=lambda: F(m, q, mask_22=m), anisohalf2=lambda: F(m, q, mask_12=m), anisoneg=lambda: F(m, q, mask_22=m, mask_12=2 * m),
               anisopure=lambda: F(m, q, mask_22=m, mask_12=0 * m, purify_b=True), anisotemp=lambda: F(m, q, mask_22=m, mask_12=0 * m, templates=t), aniso0mask=lambda: F(m, None, spin=0, mask_22=m, mask_12=0 * m),
               anisopuremask=lambda: F(m, None, spin=2, mask_22=m, mask_12=0 * m, purify_b=True), maskshape=lambda: F(m[:-1], q))
    f = F(m, None, spin=2); l = F(m, q, lite=True)
    bad.update(noalm=f.get_alms, nomaps=f.get_maps, notemp=f.get_templates, nomapslite=l.get_maps, notemplite=l.get_templates, noaniso=l.get_anisotropic_mask, noanisoalm=l.get_anisotropic_mask_alms)
    return ok, bad


def cases_master(rng, g, h, lmax, lmm, d):
    s1, s2 = [int(k) for k in rng.choice([0, 0, 1, 2], 2)]
    n1, n2 = 2 if s1 else 1, 2 if s2 else 1
    f1, f2 = field(rng, g, s1, lmax, lmm), field(rng, g, s2, lmax, lmm)
    fo, fm = field(rng, g, s2, lmax - 1, lmm), field(rng, g, s2, lmax, lmm + 1)
    fh = field(rng, h, s2, lmax, lmm)
    f0, fs = field(rng, g, 0, lmax, lmm), field(rng, g, 2, lmax, lmm)
    fp = nmt.NmtField(rng.uniform(.1, 1, g.shape), None, spin=2, purify_b=True, wcs=g.wcs, lmax=lmax, lmax_mask=lmm)
    flb = nmt.NmtField(np.ones(g.shape), None, spin=0, beam=np.ones(lmax + 4), wcs=g.wcs, lmax=lmax, lmax_mask=lmm)
    fa = nmt.NmtField(np.ones(g.shape), None, spin=2, mask_22=.9 * np.ones(g.shape), mask_12=.05 * np.ones(g.shape), wcs=g.wcs, lmax=lmax, lmax_mask=max(lmm, 4))
    b, b2 = bins(rng, lmax), bins(rng, lmax - 1)
    w = nmt.NmtWorkspace.from_fields(f1, f2, b)
    nb = b.get_n_bands(); z = lambda n=n1 * n2, l=lmax + 1: np.ones((n, l))
    W = nmt.NmtWorkspace
    C = lambda *a, **k: W.from_fields(*a, **k)
    w00, wpp = C(f0, f0, b), C(fs, fs, b)
    cw = nmt.NmtCovarianceWorkspace.from_fields(f1, f2)
    cw0 = nmt.NmtCovarianceWorkspace.from_fields(f0, f0, spin0_only=True)
    K = lambda ns, l=lmax + 1: [np.ones((n, l)) for n in ns]
    ns = [n1 * n1, n1 * n2, n2 * n1, n2 * n2]
    cov = lambda *a, **k: nmt.gaussian_covariance(*a, **k)
    fn = os.path.join(d, 'w.fits')
    w.write_to(fn)
    wl = W.from_file(fn, read_unbinned_MCM=False)
    keep = [w.get_coupling_matrix(), w.get_bandpower_windows()]
    n = n1 * n2
    ok = dict(longbeam=lambda: C(flb, f2, b), longbeam2=lambda: C(fs, flb, b), longbeama=lambda: C(fa, flb, b), couple=lambda: w.couple_cell(z()), long=lambda: w.couple_cell(z(l=lmax + 4)), dec=lambda: w.decouple_cell(z()), decb=lambda: w.decouple_cell(z(), cl_bias=z(), cl_noise=z()), win=w.get_bandpower_windows,
              teb=lambda: C(f0, fs, b, is_teb=True), fkp=lambda: C(f1, f2, b, normalization='FKP'), full=lambda: nmt.compute_full_master(f1, f2, b), fullw=lambda: nmt.compute_full_master(f1, f2, workspace=w),
              fulln=lambda: nmt.compute_full_master(f1, f2, b, cl_noise=z(), cl_guess=z()), coupled=lambda: nmt.compute_coupled_cell(f1, f2), otherpix=lambda: nmt.compute_coupled_cell(f1, fh) if f1.is_compatible(fh, strict=False) else 0,
              bias=lambda: nmt.deprojection_bias(f1, f2, z()), cov=lambda: cov(cw, s1, s2, s1, s2, *K(ns), w), covc=lambda: cov(cw, s1, s2, s1, s2, *K(ns), w, coupled=True), cov0=lambda: cov(cw0, 0, 0, 0, 0, *K([1] * 4), w00),
              readcut=lambda: wl.decouple_cell(z()), bincell=lambda: b.bin_cell(z()), unbin=lambda: b.unbin_cell(np.ones((3, nb))), bin1=lambda: b.bin_cell(np.ones(lmax + 1)))
    if lmax >= 6: ok['toep'] = lambda: C(f0, f0, b, l_toeplitz=lmax - 2, l_exact=2, dl_band=2)
    u = W(); uc = nmt.NmtCovarianceWorkspace()
    bad = dict(c_maps=lambda: w.couple_cell(z(n + 1)), c_short=lambda: w.couple_cell(z(l=lmax)), d_maps=lambda: w.decouple_cell(z(n + 1)), d_short=lambda: w.decouple_cell(z(l=lmax)),
               d_b=lambda: w.decouple_cell(z(), cl_bias=z(n + 1)), d_bs=lambda: w.decouple_cell(z(), cl_bias=z(l=lmax)), d_n=lambda: w.decouple_cell(z(), cl_noise=z(n + 1)), d_ns=lambda: w.decouple_cell(z(), cl_noise=z(l=lmax)),
               lmax=lambda: C(f1, fo, b), lmm=lambda: C(f1, fm, b), bins=lambda: C(f1, f2, b2), norm=lambda: C(f1, f2, b, normalization='X'),
               teb00=lambda: C(f0, f0, b, is_teb=True), tebs0=lambda: C(fs, f0, b, is_teb=True), teb22=lambda: C(fs, fs, b, is_teb=True),
               tpure=lambda: C(fp, fp, b, l_toeplitz=lmax - 2, l_exact=2, dl_band=2), texact=lambda: C(f0, f0, b, l_toeplitz=2, l_exact=3, dl_band=1), tlarge=lambda: C(f0, f0, b, l_toeplitz=lmax, l_exact=2, dl_band=1),
               texl=lambda: C(f0, f0, b, l_toeplitz=2, l_exact=0, dl_band=1), tband=lambda: C(f0, f0, b, l_toeplitz=2, l_exact=1, dl_band=-1), tbl=lambda: C(f0, f0, b, l_toeplitz=2, l_exact=1, dl_band=lmax),
               taniso=lambda: C(fa, fa, b, l_toeplitz=2, l_exact=1, dl_band=1), aniso_cov=lambda: nmt.NmtCovarianceWorkspace.from_fields(fa, fa),
               beam=lambda: w.update_beams(np.ones(lmax), np.ones(lmax + 1)), beam2=lambda: w.update_beams(np.ones(lmax + 1), np.ones(lmax)), beamt=lambda: w.update_beams(1., np.ones(lmax + 1)),
               ubins=lambda: w.update_bins(b2), mcm=lambda: w.update_coupling_matrix(np.ones((n * (lmax + 1), n * (lmax + 1) - 1))), mcm2=lambda: w.update_coupling_matrix(np.ones((n * (lmax + 1) + 1,) * 2)), mcmt=lambda: w.update_coupling_matrix(np.ones(5)),
               l_mcm=wl.get_coupling_matrix, l_couple=lambda: wl.couple_cell(z()), l_win=wl.get_bandpower_windows, l_beam=lambda: wl.update_beams(np.ones(lmax + 1), np.ones(lmax + 1)), l_bins=lambda: wl.update_bins(b), l_cov=lambda: cov(cw, s1, s2, s1, s2, *K(ns), wl, coupled=True),
               l_upd=lambda: wl.update_coupling_matrix(np.ones((n * (lmax + 1),) * 2)), l_write=lambda: wl.write_to(fn + '2'),
               u_mcm=u.get_coupling_matrix, u_couple=lambda: u.couple_cell(z()), u_dec=lambda: u.decouple_cell(z()), u_win=u.get_bandpower_windows, u_write=lambda: u.write_to(fn + '3'), u_bins=lambda: u.update_bins(b),
               u_beam=lambda: u.update_beams(np.ones(lmax + 1), np.ones(lmax + 1)), u_upd=lambda: u.update_coupling_matrix(np.ones((5, 5))), u_cw=lambda: uc.write_to(fn + '4'), u_cov=lambda: cov(uc, s1, s2, s1, s2, *K(ns), w), u_covw=lambda: cov(cw, s1, s2, s1, s2, *K(ns), u),
               nofile=lambda: W.from_file(fn + '.none'), nofilec=lambda: nmt.NmtCovarianceWorkspace.from_file(fn + '.none'), wrongfile=lambda: nmt.NmtCovarianceWorkspace.from_file(fn),
               f_noise=lambda: nmt.compute_full_master(f1, f2, b, cl_noise=z(n + 1)), f_noises=lambda: nmt.compute_full_master(f1, f2, b, cl_noise=z(l=lmax)), f_guess=lambda: nmt.compute_full_master(f1, f2, b, cl_guess=z(n + 1)),
               f_none=lambda: nmt.compute_full_master(f1, f2), f_lmax=lambda: nmt.compute_full_master(f1, fo, b), f_bins=lambda: nmt.compute_full_master(f1, f2, b2), cc=lambda: nmt.compute_coupled_cell(f1, fo), cm=lambda: nmt.compute_coupled_cell(f1, fm),
               ccmask=lambda: nmt.compute_coupled_cell(f1, fp), cwl=lambda: nmt.NmtCovarianceWorkspace.from_fields(f1, fo), cwm=lambda: nmt.NmtCovarianceWorkspace.from_fields(f1, f2, f1, fm), cwp=lambda: nmt.NmtCovarianceWorkspace.from_fields(f1, fh) if not f1.is_compatible(fh) else 1 / 0,
               cov_s=lambda: cov(cw, s1, 0 if s2 else 2, s1, s2, *K(ns), w), cov_n=lambda: cov(cw, s1, s2, s1, s2, *K([ns[0] + 1] + ns[1:]), w), cov_l=lambda: cov(cw, s1, s2, s1, s2, *K(ns, lmax), w), cov0s=lambda: cov(cw0, 2, 2, 2, 2, *K([4] * 4), wpp),
               cov_l1=lambda: cov(cw, s1, s2, s1, s2, *(K(ns)[:3] + K(ns[3:], lmax)), w), bin=lambda: b.bin_cell(z(l=lmax)), binl=lambda: b.bin_cell(z(l=lmax + 2)), unb=lambda: b.unbin_cell(np.ones((3, nb + 1))), bin3=lambda: b.bin_cell(np.ones((1, 1, 2))),
               bandi=lambda: b.get_ell_list(nb), bandn=lambda: b.get_ell_list(-1), bandw=lambda: b.get_weight_list(nb), bandwn=lambda: b.get_weight_list(-1), bmin=lambda: b.get_ell_min(nb), bmax=lambda: b.get_ell_max(nb), bminn=lambda: b.get_ell_min(-1), bmaxn=lambda: b.get_ell_max(-1))
    if s1 != s2 or True:
        if n1 * n2 != 1: bad['ws'] = lambda: nmt.compute_full_master(f0, f0, workspace=w)
        bad['wlmax'] = lambda: nmt.compute_full_master(fo, fo, workspace=w) if s2 == s1 else 1 / 0

    def usable(c):
        c.close('a refused call leaves the workspace unchanged', w.get_coupling_matrix(), keep[0], 0)
        c.close('a refused call leaves the workspace unchanged', w.get_bandpower_windows(), keep[1], 0)
        u.compute_coupling_matrix(f1, f2, b)
        c.close('an empty workspace is usable after refusals', u.get_coupling_matrix(), keep[0], 0)
        u2 = C(f0, f0, b)
        try: u2.compute_coupling_matrix(f1, f2, b, normalization='X')
        except ValueError: pass
        u2.compute_coupling_matrix(f1, f2, b)
        c.close('a workspace is usable after a refused computation', u2.get_coupling_matrix(), keep[0], 0)
        uc.compute_coupling_coefficients(f1, f2)
        c.close('an empty covariance workspace is usable after refusals', cov(uc, s1, s2, s1, s2, *K(ns), w), cov(cw, s1, s2, s1, s2, *K(ns), w), 0)
    return ok, bad, usable, dict(s1=s1, s2=s2)


def cases_flat(rng, d):
    nx, ny = [int(k) for k in rng.integers(6, 14, 2)]; lx, ly = rng.uniform(.2, .6, 2)
    s1, s2 = [int(k) for k in rng.choice([0, 0, 1, 2], 2)]; n1, n2 = 2 if s1 else 1, 2 if s2 else 1
    mk = lambda x=nx, y=ny: rng.uniform(.2, 1, (y, x))
    F = lambda s, x=nx, y=ny, a=lx, b=ly, **k: nmt.NmtFieldFlat(a, b, mk(x, y), rng.normal(size=(2 if s else 1, y, x)), spin=s, **k)
    f1, f2 = F(s1), F(s2); fx, fy, fl, fl2 = F(s2, x=nx + 1), F(s2, y=ny + 1), F(s2, a=lx * 1.5), F(s2, b=ly * 1.5)
    e = np.linspace(0, 2 * np.pi / lx * nx / 2, 4); b = nmt.NmtBinFlat(e[:-1], e[1:]); b2 = nmt.NmtBinFlat(e[:2], e[1:3])
    n = n1 * n2; W = nmt.NmtWorkspaceFlat; w = W(); w.compute_coupling_matrix(f1, f2, b); u = W(); uc = nmt.NmtCovarianceWorkspaceFlat(); cw = nmt.NmtCovarianceWorkspaceFlat(); cw.compute_coupling_coefficients(f1, f2, b)
    ell = b.get_effective_ells(); z = lambda k=n, l=3: np.ones((k, l)); m = mk(); q = rng.normal(size=(2, ny, nx)); t = rng.normal(size=(1, 2, ny, nx))
    N = nmt.NmtFieldFlat; K = lambda ns, l=3: [np.ones((k, l)) for k in ns]; ns = [n1 * n1, n1 * n2, n2 * n1, n2 * n2]; fn = os.path.join(d, 'f.fits')
    cov = nmt.gaussian_covariance_flat; lite = F(s1, lite=True)
    beam = lambda k=5: np.array([np.arange(k) * 100., np.ones(k)])
    mo = N(lx, ly, m, None, spin=2)
    ok = dict(beam=lambda: N(lx, ly, m, q, beam=beam()), temp=lambda: N(lx, ly, m, q, templates=t), pure=lambda: N(lx, ly, m, q, purify_b=True), couple=lambda: w.couple_cell(ell, z()), dec=lambda: w.decouple_cell(z()), decb=lambda: w.decouple_cell(z(), cl_bias=z(), cl_noise=z()),
              full=lambda: nmt.compute_full_master_flat(f1, f2, b), fullw=lambda: nmt.compute_full_master_flat(f1, f2, b, workspace=w), fullg=lambda: nmt.compute_full_master_flat(f1, f2, b, cl_noise=z(), cl_guess=z(), ells_guess=ell), cov=lambda: cov(cw, s1, s2, s1, s2, ell, *K(ns), w), bias=lambda: nmt.deprojection_bias_flat(f1, f2, b, ell, z()), maskonly=lambda: N(lx, ly, m, None, spin=2))
    bad = dict(neg=lambda: N(-lx, ly, m, q), neg2=lambda: N(lx, -ly, m, q), nospin=lambda: N(lx, ly, m, None), three=lambda: N(lx, ly, m, rng.normal(size=(3, ny, nx))), shape=lambda: N(lx, ly, m, q[:, :-1]), shapex=lambda: N(lx, ly, m, q[:, :, :-1]), spin0=lambda: N(lx, ly, m, q, spin=0), spin2=lambda: N(lx, ly, m, q[:1], spin=2),
               tcomp=lambda: N(lx, ly, m, q, templates=t[:, :1]), tshape=lambda: N(lx, ly, m, q, templates=t[..., :-1]), ttype=lambda: N(lx, ly, m, q, templates=3), btype=lambda: N(lx, ly, m, q, beam=3.), brow=lambda: N(lx, ly, m, q, beam=np.ones((3, 5))), b1d=lambda: N(lx, ly, m, q, beam=np.ones(5)), pure1=lambda: N(lx, ly, m, q, spin=1, purify_e=True), pure0=lambda: N(lx, ly, m, q[:1], purify_b=True), pure0m=lambda: N(lx, ly, m, None, spin=0, purify_b=True),
               lmaps=lite.get_maps, ltemp=lite.get_templates, mmaps=mo.get_maps,
               wx=lambda: W().compute_coupling_matrix(f1, fx, b), wy=lambda: W().compute_coupling_matrix(f1, fy, b), wl=lambda: W().compute_coupling_matrix(f1, fl, b), wl2=lambda: W().compute_coupling_matrix(f1, fl2, b), cx=lambda: nmt.compute_coupled_cell_flat(f1, fx, b), cy=lambda: nmt.compute_coupled_cell_flat(f1, fy, b), cl=lambda: nmt.compute_coupled_cell_flat(f1, fl, b), cl2=lambda: nmt.compute_coupled_cell_flat(f1, fl2, b),
               fx=lambda: nmt.compute_full_master_flat(f1, fx, b), fl=lambda: nmt.compute_full_master_flat(f1, fl, b), fn=lambda: nmt.compute_full_master_flat(f1, f2, b, cl_noise=z(n + 1)), fns=lambda: nmt.compute_full_master_flat(f1, f2, b, cl_noise=z(l=2)), fg=lambda: nmt.compute_full_master_flat(f1, f2, b, cl_guess=z(n + 1), ells_guess=ell), fgs=lambda: nmt.compute_full_master_flat(f1, f2, b, cl_guess=z(l=2), ells_guess=ell), fge=lambda: nmt.compute_full_master_flat(f1, f2, b, cl_guess=z()), fb=lambda: nmt.compute_full_master_flat(f1, f2, b2, workspace=w),
               couple=lambda: w.couple_cell(ell, z(n + 1)), couples=lambda: w.couple_cell(ell, z(l=2)), dec=lambda: w.decouple_cell(z(n + 1)), decs=lambda: w.decouple_cell(z(l=2)), decb=lambda: w.decouple_cell(z(), cl_bias=z(l=2)), decn=lambda: w.decouple_cell(z(), cl_noise=z(n + 1)),
               ucouple=lambda: u.couple_cell(ell, z()), udec=lambda: u.decouple_cell(z()), uwrite=lambda: u.write_to(fn), ucw=lambda: uc.write_to('!' + fn), ucov=lambda: cov(uc, s1, s2, s1, s2, ell, *K(ns), w), ucov2=lambda: cov(cw, s1, s2, s1, s2, ell, *K(ns), u), nofile=lambda: W().read_from(fn + '.none'), nofilec=lambda: nmt.NmtCovarianceWorkspaceFlat().read_from(fn + '.none'),
               cwx=lambda: nmt.NmtCovarianceWorkspaceFlat().compute_coupling_coefficients(f1, fx, b), cwl=lambda: nmt.NmtCovarianceWorkspaceFlat().compute_coupling_coefficients(f1, fl, b), covs=lambda: cov(cw, s1, 0 if s2 else 2, s1, s2, ell, *K(ns), w), covn=lambda: cov(cw, s1, s2, s1, s2, ell, *K([ns[0] + 1] + ns[1:]), w), covl=lambda: cov(cw, s1, s2, s1, s2, ell, *K(ns, 2), w),
               bins=lambda: nmt.NmtBinFlat(e[:-1], e[2:]), binc=lambda: b.bin_cell(ell, z(l=2)), unb=lambda: b.unbin_cell(z(l=2), ell), biass=lambda: nmt.deprojection_bias_flat(f1, f2, b, ell, z(l=2)), biasn=lambda: nmt.deprojection_bias_flat(f1, f2, b, ell, z(n + 1)), biasx=lambda: nmt.deprojection_bias_flat(f1, fx, b, ell, z()), apo=lambda: nmt.mask_apodization_flat(m, lx, ly, 1., 'none'), aponeg=lambda: nmt.mask_apodization_flat(m, lx, ly, -1., 'C1'), apo1=lambda: nmt.mask_apodization_flat(m[0], lx, ly, 1., 'C1'))
    ref = w.decouple_cell(z())

    def usable(c):
        c.close('a refused call leaves the flat workspace unchanged', w.decouple_cell(z()), ref, 0)
        u.compute_coupling_matrix(f1, f2, b)
        c.close('an empty flat workspace is usable after refusals', u.decouple_cell(z()), ref, 1e-12)
    return ok, bad, usable, dict(nx=nx, ny=ny, s1=s1, s2=s2)


def cases_misc(rng):
    m = np.ones(48); B = nmt.NmtBin
    ells = np.arange(2, 12); bp = (ells - 2) // 5
    ok = dict(apo=lambda: nmt.mask_apodization(m, 80., 'C1'), bins=lambda: B(bpws=bp, ells=ells), lin=lambda: B.from_lmax_linear(20, 4), ns=lambda: B.from_nside_linear(4, 3), fell=lambda: B(bpws=bp, ells=ells, f_ell=np.ones(10), lmax=11))
    bad = dict(apo=lambda: nmt.mask_apodization(m, 3., 'C3'), aponeg=lambda: nmt.mask_apodization(m, -3., 'C1'), aposize=lambda: nmt.mask_apodization(np.ones(47), 3., 'C1'), bl=lambda: B(bpws=bp[:-1], ells=ells), bw=lambda: B(bpws=bp, ells=ells, weights=np.ones(3)), bf=lambda: B(bpws=bp, ells=ells, f_ell=np.ones(3)), wneg=lambda: B(bpws=bp, ells=ells, weights=-np.ones(10)), w0=lambda: B(bpws=bp, ells=ells, weights=np.zeros(10)),
               edges=lambda: B.from_edges([2, 5], [5]), sht=lambda: nmt.set_sht_calculator('x'), nit=lambda: nmt.set_n_iter_default(-1), nitm=lambda: nmt.set_n_iter_default(-1, mask=True), gap=lambda: B(bpws=bp * 2, ells=ells))
    return ok, bad


def go(c, ok, bad, usable=None):
    rng = c.rng
    base = dict(c.cur)
    for k, f in ok.items():
        c.cur = dict(base, call=k)
        c.note('consistent inputs are accepted')
        try: f()
        except Exception as e: c.fail('consistent inputs are accepted', '%s: %s: %s' % (k, type(e).__name__, e))
    ks = list(bad); rng.shuffle(ks)
    for k in ks:
        c.cur = dict(base, call=k)
        c.raises('inconsistent inputs are refused', bad[k])
    c.cur = base
    if usable: usable(c)


def run(c):
    warnings.simplefilter('ignore')
    rng = c.rng; K = 0
    with tempfile.TemporaryDirectory(prefix='nmtv21') as d:
        while c.more() and K < (120 if c.thorough else 14):
            K += 1
            g, h = rand_geo(rng, nmax=10), rand_geo(rng, nmax=10)
            lmax, lmm = int(rng.integers(4, 9)), int(rng.integers(4, 9))
            c.case(kind='fields', geometry=describe(g), lmax=lmax, lmax_mask=lmm); go(c, *cases_field(rng, g, lmax, lmm))
            ok, bad, us, ds = cases_master(rng, g, h, lmax, lmm, d)
            c.case(kind='curved', geometry=describe(g), other=describe(h), lmax=lmax, lmax_mask=lmm, **ds); go(c, ok, bad, us)
            ok, bad, us, ds = cases_flat(rng, d)
            c.case(kind='flat', **ds); go(c, ok, bad, us)
            c.case(kind='misc'); go(c, *cases_misc(rng))
