"""Which contracts decide which property."""
TRUSTED = [
    'clang 18 parser (AST extraction of the current source)',
    'cv/ verification-condition generator (symbolic execution, loop summaries, term normaliser)',
    'z3 5.x',
    'assumed contracts of libc, libm, GSL, FFTW, CFITSIO and HEALPix C routines (cv/libc.py)',
]
ASSUMPTIONS = [
    'machine floats are treated as real numbers and M_PI as pi; machine integers as mathematical integers (no overflow)',
    'distinct pointer parameters do not alias',
    'memory allocation does not fail',
]
PROPS = {}
NOT_APPLICABLE = {}
TECH_B = ('runtime contracts (executable specification evaluated on the freshly built code, bounded stand-in for functions outside the verifier\'s reach)')


def P(pid, note, specs=(), budget=40, **kw):
    level = kw.pop('level', 'proof' if specs else 'exploration')
    d = dict(level=level, specs=list(specs), budget=budget, note=note, **kw)
    if not specs:
        d.setdefault('technique', TECH_B)
    PROPS[pid] = d


P('C01', 'Unbounded proof, function by function, of the weighted-average, unbinning, band-construction and effective-multipole contracts of '
  'nmt_bins.c / nmt_bins_flat.c over real arithmetic; the SWIG glue and NmtBin methods are evaluated at run time only (bounded).',
  [('cv.specs.bins', None), ('cv.specs.bins_flat', ['nmt_unbin_cls_flat', 'nmt_ell_eff_flat', 'nmt_bins_flat_constant', 'nmt_bins_flat_create'])], budget=60)
P('C02', 'Unbounded proof of band construction (nmt_bins_create, nmt_bins_constant): which multipole goes to which slot of which band, weights proportional and normalised, ell factors; '
  'NmtBin constructors/getters (Python) and SWIG glue are evaluated at run time only (bounded).',
  [('cv.specs.bins', ['nmt_bins_create', 'nmt_bins_constant'])], budget=60)
P('C03', 'Unbounded proof that nmt_bins_flat_search_fast returns the band containing the value whatever the hint, of unbinning, band construction, effective multipoles, of nmt_bin_cls_flat (value of the tabulated spectrum at the '
  'band centre, constant extrapolation outside the table) and of function-object construction, over real arithmetic; GSL spline evaluation is assumed; the Python methods and glue are evaluated at run time (bounded).',
  [('cv.specs.bins_flat', None), ('cv.specs.kfun', None)], budget=60, assumptions=['gsl_spline_eval interpolates the table it was given (linear)'])
W3J_ASM = ['drc3jj / drc3jj_000: the returned family is the Wigner 3j family W3J(l; l2, l3, m...), zero outside the triangle (the single-element and vanishing cases of drc3jj and the whole closed form of drc3jj_000 are proved against log-factorials; '
           'the Schulten-Gordon recurrence of the general case is assumed and its values are compared with an independent Racah evaluation at run time)',
           'spin-0 fields carry no purification flag']
P('C04', 'Unbounded proof (every lmax, mask lmax, number of mask spectra, mask spectrum, spin, multipole pair) that nmt_compute_master_coefficients accumulates sum_l pcl_l * (products of 3j symbols), purified 3j combinations included, '
  'that nmt_compute_coupling_matrix places them with (2l2+1) factors, spin signs, beams and parity selection, and the same for the anisotropic-weight matrix; '
  'the 3j recurrence itself, the Python class and the glue are evaluated at run time (bounded, lmax<=40, independent Racah evaluation).',
  [('cv.specs.w3j', None), ('cv.specs.coeffs', ['nmt_compute_coupling_matrix_anisotropic', 'nmt_compute_coupling_matrix'] +
    ['nmt_compute_master_coefficients[%s]' % k for k in ('00', '0s', 's0', 'ss', 's1s2', 'teb', '0s,pure', 's0,pure', 'ss,pure', 'teb,pure')])], budget=60, assumptions=W3J_ASM)
P('C05', 'Unbounded proof that with a Toeplitz window every coefficient of the exactly-computed region (columns up to l_exact, the band up to l_toeplitz, the diagonal) is the exact sum for every parameter choice; '
  'extrapolated elements, symmetry, argument validation and glue are evaluated at run time (bounded, lmax<=60).',
  [('cv.specs.coeffs', ['nmt_compute_master_coefficients[toeplitz,%s]' % k for k in ('00', '0s', 'ss')])], budget=60, assumptions=W3J_ASM)
P('C06', 'Unbounded proof (any band count, lmax, bin lists, weights, beams, matrix; each of the four spectrum counts 1, 2, 4, 7) that bin_coupling_matrix builds the stated binned matrix, '
  'nmt_couple_cl_l / nmt_decouple_cl_l / nmt_compute_bandpower_windows compute the stated contractions with it and its inverse; the window=decouple(couple) algebra, the Python methods and glue are evaluated at run time (bounded).',
  [('cv.specs.master', ['%s[ncls=%d]' % (f, n) for f in ('bin_coupling_matrix', 'nmt_couple_cl_l', 'nmt_decouple_cl_l', 'nmt_compute_bandpower_windows') for n in (1, 2, 4, 7)])], budget=60,
  assumptions=['gsl_linalg_LU_decomp/LU_solve/LU_invert and gsl_blas_dgemm compute the exact inverse / solution / product (uninterpreted inverse)'])
P('C07', 'Unbounded proof that after nmt_workspace_update_beams / _update_binning / nmt_update_coupling_matrix the binned matrix is the one defined by the current beams, bands and unbinned matrix (so the '
  'state is a function of the current inputs, not of the history), and that refused updates write nothing; the Python methods and histories are evaluated at run time (bounded).',
  [('cv.specs.master', ['%s[ncls=%d]' % (f, n) for f in ('nmt_update_coupling_matrix', 'nmt_workspace_update_beams', 'nmt_workspace_update_binning') for n in (1, 2, 4, 7)])], budget=60,
  assumptions=['gsl_linalg_LU_decomp factorises the matrix it is given (ghost content)'])
P('C08', 'Bounded: write/read round trips of generated workspaces, including truncated, corrupted and unbinned-less files.')
P('C09', 'Unbounded proof (every lmax, band scheme, spectra, coefficients; all 16 spin combinations) that nmt_compute_gaussian_covariance_coupled / nmt_compute_gaussian_covariance produce the contraction of the coefficients with the symmetrised '
  'spectra for every component pair, with the right coefficient and sign (cov_get_coupling_pair_index proved against the rotation-kernel definition), zero outside the bands, sandwiched by the inverses; refusals only under the documented conditions. Python class, glue and pair exchange are evaluated at run time (bounded).',
  [('cv.specs.covar', ['cov_get_coupling_pair_index', 'nmt_compute_gaussian_covariance', 'nmt_compute_gaussian_covariance_coupled'])], budget=60,
  assumptions=['gsl_linalg_LU_invert / gsl_blas_dgemm compute the exact inverse / product (uninterpreted inverse)', 'each multipole belongs to at most one band'])
P('C10', 'Unbounded proof that nmt_covar_workspace_init hands the (2l+1)/(4 pi)-weighted spectra of both mask products to nmt_compute_master_coefficients (contract proved under C04) with spins 0,2 and TEB coefficients (or spin 0 only) and stores each returned coefficient under its own name; '
  'Python class, I/O and glue are evaluated at run time (bounded).',
  [('cv.specs.covar', ['nmt_covar_workspace_init']), ('cv.specs.coeffs', ['nmt_compute_master_coefficients[00]', 'nmt_compute_master_coefficients[teb]'])], budget=60, assumptions=W3J_ASM)
P('C11', 'Bounded: all pixels of nside<=16 and sampled larger resolutions compared with healpy and brute force.')
P('C12', 'Bounded: generated masks at nside<=64 compared with brute-force nearest-masked-pixel distances.')
P('C13', 'Bounded: generated flat masks compared with brute-force distances.')
FFTW_ASM = 'fftw_execute on r2c / c2r plans computes the (half-plane) discrete Fourier sums of the array it was planned for'
P('C14', 'Unbounded proof (every patch shape and size, every spin) that fs_map2alm / fs_alm2map are the normalised discrete Fourier sums over the stored half plane followed / preceded by the spin rotation, that qu2eb / eb2qu rotate every stored mode '
  '(Nyquist rows and columns, null mode, powers of i) and that fs_alter_alm multiplies every mode by the filter at its wave number, with the Gaussian table of fs_generate_beam_window; round trips, Python functions and glue are evaluated at run time against explicit DFTs (bounded).',
  [('cv.specs.fsky', ['fs_map2alm', 'fs_alm2map', 'qu2eb', 'eb2qu', 'fs_alter_alm', 'fs_generate_beam_window', 'fs_zero_alm', 'fs_map_product', 'fs_mapcpy', 'fs_map_dot'])], budget=60, assumptions=[FFTW_ASM])
P('C15', 'Unbounded proof (every patch, band scheme, exclusion range, spin combination, thread schedule) that fs_alm2cl is the average over every mode of the full Fourier plane in the band and outside the excluded ranges (conjugate modes included once each), '
  'zero for empty bands, and that the band search it relies on does not depend on its hint; Python functions, glue and the field construction are evaluated at run time against explicit sums (bounded).',
  [('cv.specs.fsky', ['fs_alm2cl']), ('cv.specs.bins_flat', ['nmt_bins_flat_search_fast']), ('cv.specs.master_flat', ['nmt_compute_coupled_cell_flat'])], budget=60)
P('C16', 'Unbounded proof (every patch, mask, beam, band scheme, excluded range, spin) that nmt_compute_coupling_matrix_flat stores, for every combination of spin-0 and spin-s fields, purification flags and the T-E-B case, binned and ring-sampled matrices equal to the normalised sum over pairs of modes of the mask cross spectrum, beams and rotation '
  '(or purification) factors; that nmt_couple_cl_l_flat_fast / _quick apply them to the ring / band averages of the tabulated spectrum and nmt_decouple_cl_l_flat inverts them (1, 2, 4, 7 spectra); nmt_flatsky_info_alloc is proved; the Python class and the ensemble-mean reading are evaluated at run time against explicit sums (bounded).',
  [('cv.specs.master_flat', ['nmt_compute_coupling_matrix_flat', 'nmt_couple_cl_l_flat_fast', 'nmt_couple_cl_l_flat_quick', 'nmt_decouple_cl_l_flat', 'nmt_flatsky_info_alloc', 'nmt_compute_coupled_cell_flat']), ('cv.specs.fsky', ['fs_map2alm']), ('cv.specs.kfun', None)], budget=60,
  assumptions=[FFTW_ASM, 'gsl_linalg_LU_decomp / LU_solve compute the exact solution (uninterpreted inverse)', 'spin-0 fields carry no purification flag'])
P('C17', 'Unbounded proof (every band scheme, spectra, coefficients, coupling matrices; all 16 spin combinations) that nmt_compute_gaussian_covariance_flat is the contraction of the band coefficients with the symmetrised bandpowers of every component pair, sandwiched by the inverse coupling matrices, '
  'refusing exactly mismatching bands or spins; that nmt_covar_workspace_flat_init computes every coefficient as the normalised sum over all pairs of modes of both bands of the mask-product cross spectrum with the right rotation kernel; nmt_bin_cls_flat is proved; the Python class and glue are evaluated at run time against explicit pair sums (bounded).',
  [('cv.specs.covar_flat', None), ('cv.specs.covar', ['cov_get_coupling_pair_index']), ('cv.specs.bins_flat', ['nmt_bin_cls_flat'])], budget=60,
  assumptions=['gsl_linalg_LU_invert / gsl_blas_dgemm compute the exact inverse / product (uninterpreted inverse)'])
P('C18', 'Bounded: generated masks, maps and templates; residual orthogonality and linearity evaluated on the stored maps.')
P('C19', 'Bounded: bias compared with an explicit ensemble evaluation of the three terms on generated fields.')
P('C20', 'Bounded: generated geometries compared with the WCS / HEALPix definition of every pixel.')
P('C21', 'Bounded: enumerated inconsistent calls at the public API must raise and leave the objects usable.')
NOANI = ['nmt_compute_master_coefficients', 'nmt_compute_coupling_matrix'] + ['nmt_compute_coupling_matrix_anisotropic[%s]' % k for k in ('0s,01', 's0,10')]
MFQ = ['nmt_compute_coupling_matrix_flat[%s]' % k for k in ('00', '00,same', '0s', 's0', 'ss,pure=e|b', '0s,teb')] + ['nmt_couple_cl_l_flat_fast', 'nmt_couple_cl_l_flat_quick', 'nmt_decouple_cl_l_flat', 'nmt_flatsky_info_alloc', 'nmt_compute_coupled_cell_flat']
P('C22', 'Unbounded proof, for every C function under contract (binning, mode coupling, coupling matrices, covariances, flat-sky transforms and spectra), that every array access stays inside its array and its lifetime, that no null pointer is dereferenced and that errors are reported only under the documented conditions; '
  'the functions not under contract, the glue and the Python layer are driven at run time with generated shapes over red-zoned, signalling-NaN-filled allocations (bounded).',
  [('cv.specs.bins', None), ('cv.specs.bins_flat', None), ('cv.specs.kfun', None), ('cv.specs.w3j', None), ('cv.specs.master', None), ('cv.specs.coeffs', NOANI), ('cv.specs.covar', None), ('cv.specs.fsky', None), ('cv.specs.covar_flat', None), ('cv.specs.master_flat', MFQ)],
  budget=60, kinds=('mem', 'err'), assumptions=W3J_ASM + [FFTW_ASM])
P('C23', 'Bounded: generated catalogs compared with explicit spin-harmonic sums and shot-noise expressions.')
P('C24', 'Bounded: Moore-Penrose conditions evaluated on generated matrices for the C and the Python pseudo-inverse.')
P('C25', 'Unbounded proof, for every parallel region of the functions under contract, that no two iterations of a work-shared loop write the same location or read what another one writes except through atomic / critical / reduction constructs and that thread-private accumulations are merged exactly once, so the result does not depend on the schedule (real arithmetic); '
  'the other parallel operations and repeated-call state are compared over thread counts and schedules at run time (bounded).',
  [('cv.specs.coeffs', NOANI), ('cv.specs.covar', None), ('cv.specs.fsky', None), ('cv.specs.covar_flat', None), ('cv.specs.master_flat', MFQ)],
  budget=60, kinds=('race',), assumptions=['floating-point reassociation of sums over threads is not distinguished'])
P('C26', 'Bounded: linear response of the simulations recovered exactly from fixed seeds on generated spectra.')
P('C27', 'Bounded: purified coefficients compared with inner products with explicit pure modes on generated masks and maps.')
