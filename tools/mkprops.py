"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Bandpowers are normalised weighted averages; unbinning inverts binning",
  "Binning a full-sky power spectrum returns, in every band, the sum over the band's multipoles of (normalised weight) x (ell-weighting factor) x C_ell, with the weights of each band summing to one, for each input spectrum independently. Unbinning returns the band value divided by the ell-weighting factor at every multipole of that band, so that binning an unbinned set of bandpowers returns it unchanged. Effective multipoles are the weighted means of the multipoles of each band.",
  ["inputs", "configurations"], "all binning schemes (bands, weights, ell factors, lmax), all input spectra of any number, all bands and multipoles",
  "Tests bin one or two schemes with nlb=4 and power-law spectra; identities over all schemes, weights and spectra are never exercised.",
  ["src/nmt_bins.c", "pymaster/bins.py"],
  [("nmt_bin_cls / nmt_unbin_cls / nmt_ell_eff loops", "src/nmt_bins.c"), ("weight normalisation per band", "src/nmt_bins.c nmt_bins_create"), ("NmtBin.bin_cell / unbin_cell / get_effective_ells", "pymaster/bins.py")],
  [("binning scheme", "per-band lists of multipoles, weights, ell factors", "src/namaster.h nmt_binning_scheme")], ["NmtBin.bin_cell", "NmtBin.unbin_cell", "NmtBin.get_effective_ells"])

p("C02", "Every multipole lands in exactly the band it was assigned to",
  "A full-sky binning scheme contains, in each band, exactly the multipoles (with their relative weights and ell factors, in order) that the user assigned to that band and that do not exceed lmax; multipoles assigned to a negative band or above lmax are dropped and non-positive ell factors are replaced by one. Constant-width, edge-defined and resolution-defined schemes cover contiguous half-open ranges [ell_i, ell_i+1), and the reported band counts, multipole lists, weights, minimum and maximum multipoles agree with that assignment. A band whose total weight is not positive is rejected with an error.",
  ["inputs", "configurations"], "all assignments of multipoles to bands, weights, ell factors, lmax, edges, bin widths",
  "Unit tests construct a handful of regular schemes; irregular, sparse or truncated assignments are not sampled.",
  ["src/nmt_bins.c", "pymaster/bins.py", "pymaster/namaster.i"],
  [("nmt_bins_create / nmt_bins_constant", "src/nmt_bins.c"), ("NmtBin constructors and getters", "pymaster/bins.py")],
  [("nell_list, ell_list, w_list, f_ell", "the assignment", "src/nmt_bins.c")], ["NmtBin(...)", "NmtBin.from_edges", "NmtBin.from_lmax_linear", "NmtBin.get_ell_list"])

p("C03", "Flat-sky band lookup finds the containing band, whatever the starting hint",
  "For a flat-sky binning scheme with ordered, non-overlapping bands, the band assigned to a wavenumber is the band whose half-open interval [lower, upper) contains it, or none if no band does, independently of any search hint or of previously searched wavenumbers. Unbinning a set of flat-sky bandpowers gives the containing band's value (or the documented -999 outside all bands), and binning interpolates the spectrum linearly at the band centres with constant extrapolation.",
  ["inputs", "histories"], "all ordered non-overlapping band sets (with or without gaps), all wavenumbers, all hints and lookup orders",
  "Tests look up a few contiguous bands; hint/lookup-order independence quantifies over every history of lookups.",
  ["src/nmt_bins_flat.c", "pymaster/bins.py", "src/nmt_field_flat.c"],
  [("nmt_bins_flat_search_fast", "src/nmt_bins_flat.c"), ("nmt_bin_cls_flat / nmt_unbin_cls_flat", "src/nmt_bins_flat.c"), ("nmt_k_function_eval", "src/nmt_field_flat.c")],
  [("ell_0_list, ell_f_list", "band edges", "src/nmt_bins_flat.c")], ["NmtBinFlat.bin_cell", "NmtBinFlat.unbin_cell", "nmt_bins_flat_search_fast"])

p("C04", "The mode-coupling matrix equals its analytic definition",
  "For any pair of spins (including combined TEB and E/B-purified fields), any pseudo-spectrum of the masks and any multipole limits, the unbinned mode-coupling matrix equals the analytic sum over mask multipoles of mask power times products of Wigner 3j symbols, with the correct E/B parity split, signs, (2l'+1) factor, purification factors and placement of every spectrum-pair block, and is zero elsewhere. This also holds for anisotropic-weight masks with all nine mask spectra. Multipoles below the larger spin contribute nothing for spin fields.",
  ["inputs", "configurations"], "all mask spectra, spins, purification flags, TEB flag, lmax and lmax_mask, all matrix elements",
  "Tests that exercise the matrix compare with files for one mask; parities, spins and purification combinations are mostly unsampled.",
  ["src/nmt_master.c", "src/utils.c", "pymaster/workspaces.py"],
  [("nmt_compute_master_coefficients", "src/nmt_master.c"), ("nmt_compute_coupling_matrix(_anisotropic)", "src/nmt_master.c"), ("drc3jj / drc3jj_000", "src/utils.c")],
  [("coupling_matrix_unbinned", "row (ncls*l1+icl1), column (ncls*l2+icl2)", "src/nmt_master.c")], ["NmtWorkspace.get_coupling_matrix", "compute_general_coupling_matrix-style calls"])

p("C05", "The Toeplitz approximation only changes what it is allowed to approximate",
  "With Toeplitz parameters switched off, coupling coefficients are exact; with them on, every element in the exactly computed region (columns/rows up to l_exact, the band of width dl_band up to l_toeplitz, and all diagonal elements) equals the exact value, the matrix of mask-coupling coefficients stays symmetric, and remaining elements follow the documented scaling from the reference column and the diagonals. Inconsistent Toeplitz parameters are rejected with an error.",
  ["inputs", "configurations"], "all mask spectra, l_toeplitz, l_exact, dl_band, lmax, spins without purification",
  "One set of Toeplitz parameters is tested for approximate agreement only.",
  ["src/nmt_master.c", "pymaster/utils.py", "pymaster/workspaces.py"],
  [("lend_toeplitz / toeplitz_wrap / populate_toeplitz", "src/nmt_master.c"), ("_toeplitz_sanity", "pymaster/utils.py")],
  [("xi_00, xi_0s, xi_pp, xi_mm", "coupling coefficients", "src/nmt_master.c")], ["NmtWorkspace.get_coupling_matrix"])

p("C06", "Coupling, decoupling and bandpower windows are mutually consistent",
  "For any workspace, coupling applies the (beam-weighted) unbinned coupling matrix to each input spectrum; decoupling bins the input minus noise minus bias and solves exactly the linear system given by the binned coupling matrix; and the bandpower windows are that inverse times the binned coupling matrix rows, so decoupling a coupled spectrum equals applying the windows to it. The binned matrix is the coupling matrix (times beams) binned on rows with normalised weights and unbinned on columns, or the identity times the FKP factor in FKP normalisation. Decoupling the coupling of spectra that are constant within bands (up to ell factors, zero outside the bands) returns those bandpowers.",
  ["inputs", "configurations"], "all coupling matrices, beams, binning schemes, numbers of spectra (1, 2, 4, 7), normalisations and input spectra",
  "End-to-end tests compare to stored results for a single mask and cannot distinguish errors in untested spectrum combinations.",
  ["src/nmt_master.c", "pymaster/workspaces.py"],
  [("bin_coupling_matrix", "src/nmt_master.c"), ("nmt_couple_cl_l / nmt_decouple_cl_l / nmt_compute_bandpower_windows", "src/nmt_master.c")],
  [("coupling_matrix_binned", "LU-factorised binned matrix", "src/nmt_master.c")], ["NmtWorkspace.couple_cell", "NmtWorkspace.decouple_cell", "NmtWorkspace.get_bandpower_windows"])

p("C07", "A workspace depends only on its current configuration, not on its history",
  "After any sequence of updates of beams, bins or coupling matrix, a workspace gives the same coupled, decoupled and window results as a workspace freshly computed with the final beams, bins and matrix. Rejected updates (inconsistent sizes or multipole limits) raise an error and leave all results unchanged. Operations that only read a workspace (couple, decouple, windows, get matrix) never change later results.",
  ["histories", "inputs"], "all sequences of update_beams / update_bins / update_coupling_matrix / compute_coupling_matrix / read-only calls, including failing ones",
  "Tests run one update on one workspace; the property is over every history.",
  ["src/nmt_master.c", "pymaster/workspaces.py"],
  [("nmt_workspace_update_beams / update_binning / nmt_update_coupling_matrix", "src/nmt_master.c"), ("NmtWorkspace.update_*", "pymaster/workspaces.py")],
  [("beam_prod, bin, coupling_matrix_*", "workspace state", "src/namaster.h nmt_workspace")], ["NmtWorkspace methods"])

p("C08", "Writing and reading workspaces preserves their behaviour",
  "A full-sky, flat-sky or covariance workspace written to a file and read back behaves identically: same coupling matrix, beams, bins (multipoles, weights, ell factors), couple/decouple/window results and covariances, for every kind of binning, normalisation and number of spectra. Reading without the unbinned matrix keeps decoupling identical while operations that need the unbinned matrix raise an error instead of misbehaving. Reading a missing or malformed file raises an error.",
  ["inputs", "configurations", "histories"], "all workspaces (spins, bins, lmax and lmax_mask, TEB, FKP normalisation), all write/read histories",
  "The I/O tests need data files and one configuration; nothing covers FKP normalisation or reads without the unbinned matrix followed by updates.",
  ["src/nmt_io.c", "pymaster/workspaces.py", "pymaster/covariance.py"],
  [("nmt_workspace_write_fits / nmt_workspace_read_fits and flat / covar versions", "src/nmt_io.c"), ("check_unbinned", "pymaster/workspaces.py")],
  [("FITS header keys and HDUs", "serialised state", "src/nmt_io.c")], ["NmtWorkspace.write_to / read_from / from_file"])

p("C09", "Gaussian covariances equal the analytic formula for every spectrum combination",
  "The full-sky Gaussian covariance of two sets of bandpowers equals, for every combination of spins and E/B components, the coupling coefficients contracted with the symmetrised products of the four input cross-spectra, binned with weights and ell factors and pre- and post-multiplied by the inverse binned coupling matrices (or left unbinned when the coupled covariance is requested). Each E/B component pair picks the correct coefficient and sign: parity-mixing terms enter through the minus coefficient, vanishing combinations contribute nothing. Exchanging the two pairs of fields (with their spectra) transposes the covariance.",
  ["inputs", "configurations"], "all spins (a,b,c,d), spectra, bin schemes, and coupling coefficients",
  "The covariance tests need missing data files; and they compare one spin configuration.",
  ["src/nmt_covar.c", "src/utils.c", "pymaster/covariance.py"],
  [("cov_get_coupling_pair_index", "src/utils.c"), ("nmt_compute_gaussian_covariance(_coupled)", "src/nmt_covar.c"), ("gaussian_covariance", "pymaster/covariance.py")],
  [("covar_indices", "component pairs to coefficient", "src/utils.c")], ["gaussian_covariance"])

p("C10", "Covariance coupling coefficients match their definition",
  "The coefficients held by a covariance workspace are the symmetric mask-coupling coefficients of the products of mask pseudo-spectra (11x22 and 12x21) weighted by (2l+1)/(4 pi) for spins 00, 02, 22+ and 22-, up to the requested multipole limits; with spin-0-only workspaces only the scalar coefficients are used and spin covariances are refused. Requesting covariances beyond the stored multipole limit or with spins inconsistent with the workspaces is refused with an error.",
  ["inputs", "configurations"], "all mask cross spectra, lmax, lmax_mask, spin0_only, Toeplitz settings",
  "Tests compare a stored benchmark for one mask (data files missing here).",
  ["src/nmt_covar.c", "src/nmt_master.c", "pymaster/covariance.py"],
  [("nmt_covar_workspace_init", "src/nmt_covar.c"), ("NmtCovarianceWorkspace.compute_coupling_coefficients", "pymaster/covariance.py")],
  [("xi00,xi02,xi22p,xi22m", "coefficients", "src/namaster.h nmt_covar_workspace")], ["NmtCovarianceWorkspace", "gaussian_covariance"])

p("C11", "HEALPix ring geometry and region queries return the right pixels",
  "For every resolution, ring lookups, ring limits, angle-to-pixel conversion, strip and disc queries agree with the HEALPix pixelisation: a strip query returns exactly the pixels of the rings between its limits; a disc query returns each pixel at most once, includes every pixel whose centre is within the radius, and returns only valid pixels near the disc. Ring/nested reordering are inverse permutations, changing resolution averages or replicates pixels, and map products and inner products are pixel-wise with the pixel area.",
  ["inputs", "configurations"], "all nside, disc centres (poles included), radii, strips, and maps",
  "Tests query a few discs and strips at fixed nside.",
  ["src/healpix_extra.c"],
  [("he_ring_num / get_ring_limits / he_query_strip / he_query_disc / he_in_ring / he_ang2pix", "src/healpix_extra.c"), ("he_ring2nest_inplace / he_nest2ring_inplace / he_udgrade", "src/healpix_extra.c")],
  [], ["he_* functions", "mask_apodization (HEALPix)"])

p("C12", "HEALPix mask apodization never exceeds the mask and respects its zeros",
  "Apodizing a non-negative HEALPix mask with C1 or C2 multiplies each unmasked pixel by the documented function of its angular distance to the nearest masked pixel, so results lie between zero and the input, masked pixels stay zero, and pixels farther than the apodization scale from any masked pixel are unchanged. The 'Smooth' scheme first zeroes every pixel within 2.5 scales of a masked pixel and never un-masks a masked pixel. A zero scale returns the mask unchanged, and negative scales or unknown schemes raise errors.",
  ["inputs", "configurations"], "all masks, nside, scales, and schemes",
  "Tests use one disc-like mask and one scale.",
  ["src/nmt_mask.c", "src/healpix_extra.c", "pymaster/utils.py"],
  [("apodize_mask_CX / apodize_mask_smooth_binary / nmt_apodize_mask", "src/nmt_mask.c"), ("mask_apodization", "pymaster/utils.py")],
  [], ["mask_apodization"])

p("C13", "Flat-sky mask apodization follows true distances and respects zeros",
  "Apodizing a non-negative flat-sky mask with C1 or C2 multiplies each unmasked pixel by the documented function of its distance (in true sky units, for any pixel aspect ratio) to the nearest masked pixel inside the patch, so results lie between zero and the input, masked pixels stay zero and pixels farther than the scale are unchanged. The 'Smooth' scheme multiplies the mask by the Gaussian-smoothed, enlarged mask and never un-masks a pixel. A zero scale returns the mask unchanged, and negative scales or unknown schemes raise errors.",
  ["inputs", "configurations"], "all patch shapes and pixel aspect ratios, masks, scales and schemes",
  "Tests use a square patch with square pixels.",
  ["src/nmt_mask_flat.c", "pymaster/utils.py"],
  [("apodize_mask_CX / apodize_mask_smooth / nmt_apodize_mask_flat", "src/nmt_mask_flat.c"), ("mask_apodization_flat", "pymaster/utils.py")],
  [], ["mask_apodization_flat"])

p("C14", "Flat-sky spin transforms are inverse, orthogonal rotations of Fourier modes",
  "For every patch size and spin, the flat-sky E/B to Q/U and Q/U to E/B steps are mutually inverse rotations by spin times the mode's polar angle with the documented sign convention, preserve the modulus of the pair at every mode, and treat negative frequencies with the correct wavevector; map products, inner products, mode filtering and unit handling are exact pixel- or mode-wise operations. Transforming a map to Fourier space and back returns it.",
  ["inputs", "configurations"], "all nx, ny (odd and even), patch sizes, spins, maps and mode coefficients",
  "Tests use one patch, spins 0 and 2, and a few analytic maps.",
  ["src/flatsky_utils.c", "src/nmt_field_flat.c"],
  [("qu2eb / eb2qu / fs_map2alm / fs_alm2map", "src/flatsky_utils.c"), ("fs_map_product / fs_map_dot / fs_alter_alm", "src/flatsky_utils.c"), ("nmt_flatsky_info_alloc", "src/nmt_field_flat.c")],
  [("nmt_flatsky_info", "geometry", "src/namaster.h")], ["NmtFieldFlat.get_maps", "synfast_flat", "fs_* functions"])

p("C15", "Flat-sky power spectra average exactly the selected Fourier modes of each band",
  "The flat-sky coupled pseudo-spectrum of each band is (2 pi)^2 over the patch area times the mean over all Fourier modes of the full plane whose wavenumber falls in the band and whose kx and ky both lie outside their excluded ranges, of the real part of a1 conj(a2); bands with no mode give zero. Component ordering is that of the two fields (first field's component slowest), and results do not depend on earlier calls.",
  ["inputs", "configurations"], "all patches, bands, excluded ranges, spins and maps",
  "Tests compare smooth spectra of one patch with loose tolerances and barely use the exclusion ranges.",
  ["src/flatsky_utils.c", "src/nmt_master_flat.c", "pymaster/workspaces.py"],
  [("fs_alm2cl", "src/flatsky_utils.c"), ("nmt_compute_coupled_cell_flat", "src/nmt_master_flat.c"), ("compute_coupled_cell_flat", "pymaster/workspaces.py")],
  [], ["compute_coupled_cell_flat"])

p("C16", "The flat-sky coupling matrix is the ensemble mean of the estimator",
  "For every mask pair, spins and purification flags, the flat-sky mode-coupling matrix equals the average over the selected modes of each band of mask power at the mode difference times the correct products of rotation cosines/sines (or purification ratios), beam and normalisation, for every spectrum pair and the combined TEB case; decoupling solves exactly the binned linear system after subtracting noise and bias, and coupling a theory spectrum applies the ring-averaged matrix. Fields or workspaces with different patches, pixels or numbers of bands are refused.",
  ["inputs", "configurations"], "all masks, spins, purification flags, bands, exclusion ranges, spectra",
  "Flat workspace tests need missing data or compare one configuration.",
  ["src/nmt_master_flat.c", "pymaster/workspaces.py"],
  [("nmt_compute_coupling_matrix_flat", "src/nmt_master_flat.c"), ("nmt_couple_cl_l_flat_fast / nmt_decouple_cl_l_flat", "src/nmt_master_flat.c")],
  [("coupling_matrix_binned/unbinned", "flat MCM", "src/nmt_master_flat.c")], ["NmtWorkspaceFlat"])

p("C17", "Flat-sky Gaussian covariances equal the analytic formula",
  "The flat-sky Gaussian covariance equals, for all spins and components, the flat-sky coupling coefficients of mask products (averaged over pairs of modes of the two bands, with full, cosine and sine-type rotation factors) contracted with the band-averaged input cross-spectra and sandwiched by inverse binned coupling matrices. Fields with different patches, or workspaces with different bands or spins, are refused, and exchanging the two pairs of fields transposes the covariance.",
  ["inputs", "configurations"], "all mask sets, spins, bands, spectra",
  "Tests need missing data and check one configuration.",
  ["src/nmt_covar_flat.c", "pymaster/covariance.py"],
  [("nmt_covar_workspace_flat_init", "src/nmt_covar_flat.c"), ("nmt_compute_gaussian_covariance_flat", "src/nmt_covar_flat.c")],
  [], ["gaussian_covariance_flat", "NmtCovarianceWorkspaceFlat"])

p("C18", "Field maps are masked and exactly deprojected; template order is irrelevant",
  "A curved- or flat-sky field stores maps equal to the input times the mask (once, whether or not masked on input) minus the least-squares combination of the masked templates, so the stored map is orthogonal, in the pixel-area inner product, to every non-degenerate template; harmonic coefficients are those of the stored map. Adding template contributions to the input leaves the stored maps unchanged, and the inputs supplied by the user are never modified. Lightweight and mask-only fields give the same spectra but refuse to return what they do not store.",
  ["inputs", "configurations"], "all masks, maps, template sets (including degenerate), spins, masked_on_input, lite",
  "Tests use one or two templates with simple relations.",
  ["pymaster/field.py", "src/nmt_field_flat.c", "src/utils.c"],
  [("NmtField.__init__", "pymaster/field.py"), ("nmt_field_flat_alloc", "src/nmt_field_flat.c"), ("moore_penrose_pinv", "src/utils.c")],
  [("maps, alms, temp, iM", "field state", "pymaster/field.py")], ["NmtField.get_maps / get_alms", "NmtFieldFlat.get_maps"])

p("C19", "Deprojection bias is the analytic three-term expression",
  "For any two fields with templates, masks, spins and proposal spectra, the deprojection bias equals the analytic sum of the two single-field terms (negative) and the joint term (positive) with the correct template covariance matrices and component/ transposition order; it vanishes without templates and swapping the two fields (with transposed proposal spectra) permutes the result accordingly. The same holds for flat-sky fields and for uncorrelated-noise bias.",
  ["inputs", "configurations"], "all template sets, masks, spins, proposals",
  "The bias tests in the suite compare with stored data or check only output shapes.",
  ["pymaster/workspaces.py", "src/nmt_master_flat.c"],
  [("deprojection_bias / uncorr_noise_deprojection_bias", "pymaster/workspaces.py"), ("nmt_compute_deprojection_bias_flat", "src/nmt_master_flat.c")],
  [], ["deprojection_bias", "deprojection_bias_flat", "uncorr_noise_deprojection_bias"])

p("C20", "Map geometry objects describe the pixelisation and compare by content",
  "Map and harmonic geometry objects describe every supported pixelisation (HEALPix with nside of 2 or more; rectangular Clenshaw-Curtis grids) faithfully: reshaping a map (with axis flips for rectangular pixels) puts each pixel at its true colatitude and longitude, padding and unpadding are inverse, per-pixel weighting and inner products use the true pixel areas or ring weights, and default multipole limits follow the resolution. Two geometry objects compare equal exactly when they describe the same pixels (or multipole range), and field compatibility is symmetric.",
  ["inputs", "configurations"], "all nside, all full- or partial-sky rectangular grids with either axis orientation, all map values",
  "Tests check two WCS headers and one nside.",
  ["pymaster/utils.py", "pymaster/field.py"],
  [("NmtMapInfo / NmtAlmInfo / _SHTInfo", "pymaster/utils.py"), ("NmtField.is_compatible", "pymaster/field.py")],
  [], ["NmtMapInfo", "NmtField.is_compatible"])

p("C21", "Inconsistent inputs are refused before any result is produced",
  "Every public call whose inputs disagree (array shapes, numbers of spectra or maps, spins, multipole limits, beams too short, incompatible fields, binning or workspaces, uninitialised workspaces, unsupported option combinations) raises an exception rather than returning a result, and leaves its objects usable. Consistent inputs are never refused.",
  ["inputs", "configurations"], "all combinations of inconsistent shapes, spins, limits and objects at the public API",
  "Tests list a few bad inputs per function.",
  ["pymaster/workspaces.py", "pymaster/covariance.py", "pymaster/bins.py", "pymaster/field.py", "pymaster/utils.py"],
  [("argument checks in public functions", "pymaster/*.py"), ("report_error", "src/utils.c")],
  [], ["all public functions"])

p("C22", "The compiled library never touches memory outside its arrays",
  "For all inputs accepted by the public interface, every array read and write made by the compiled library lies within the array's allocated bounds and refers to live memory, memory is released once, and integer index arithmetic stays in range. Errors detected by the library surface as exceptions at the call that caused them, without terminating the process, and later valid calls give correct results.",
  ["inputs", "configurations", "histories"], "all accepted shapes, multipole limits (lmax and lmax_mask independent), spins, bins, and error histories",
  "Out-of-bounds reads pass silently in unit tests; they need bounds for all sizes.",
  ["src/nmt_bins.c", "src/nmt_master.c", "src/utils.c", "src/nmt_covar.c", "src/healpix_extra.c", "src/flatsky_utils.c"],
  [("allocation sizes vs loop bounds", "src/*.c"), ("report_error / try-throw", "src/utils.c, pymaster/namaster.i")],
  [], ["all library entry points"])

p("C23", "Catalog fields subtract exactly their shot noise",
  "For catalog-based fields, the mask and field shot-noise levels equal the sums of squared weights (times squared, position-summed field values, and with the randoms' contributions scaled by the data-to-random ratio) over 4 pi; the harmonic coefficients are the weighted sums over sources of the conjugate (spin) spherical harmonics; the field's level is averaged over its components; and the noise bias is removed only from auto-correlations of the same field and from the mask auto-spectrum. Cross-correlations of different fields are never noise-subtracted.",
  ["inputs", "configurations"], "all catalogs (positions, weights, field values, spins, randoms), lonlat or colatitude conventions",
  "Tests check one Poisson catalog statistically.",
  ["pymaster/field.py", "pymaster/workspaces.py", "pymaster/utils.py"],
  [("NmtFieldCatalog / NmtFieldCatalogClustering", "pymaster/field.py"), ("compute_coupled_cell", "pymaster/workspaces.py"), ("_catalog2alm_ducc0", "pymaster/utils.py")],
  [], ["NmtFieldCatalog", "compute_coupled_cell"])

p("C24", "Template pseudo-inverses satisfy the Moore-Penrose conditions",
  "The pseudo-inverse used for template covariance matrices is symmetric and satisfies the Moore-Penrose conditions on the eigenspaces above the relative threshold, and annihilates the eigenspaces below it, for every symmetric positive semi-definite matrix. For well-conditioned matrices it is the inverse.",
  ["inputs"], "all symmetric positive semi-definite matrices and thresholds",
  "Tests invert one or two fixed matrices.",
  ["src/utils.c", "pymaster/utils.py"],
  [("moore_penrose_pinv", "src/utils.c"), ("moore_penrose_pinvh", "pymaster/utils.py")],
  [], ["moore_penrose_pinvh", "NmtField deprojection"])

p("C25", "Parallel loops are free of races: results do not depend on thread count",
  "Every parallel loop of the compiled library writes, from different iterations, only distinct memory locations, locations protected by atomic/critical/reduction constructs, or the same value to the same location (flags that are only ever cleared), and reads no location another iteration writes unprotected with a different value. Hence the results of all deterministic operations are the same for every number of threads and every schedule (up to rounding of reductions).",
  ["schedules", "inputs"], "all thread counts and interleavings of every parallel loop, all inputs",
  "Tests run one thread count; races depend on schedules.",
  ["src/nmt_master.c", "src/nmt_covar.c", "src/flatsky_utils.c", "src/nmt_mask.c", "src/nmt_mask_flat.c", "src/healpix_extra.c", "src/nmt_master_flat.c", "src/nmt_covar_flat.c", "src/nmt_field_flat.c"],
  [("OpenMP regions with shared/private lists", "src/*.c")],
  [], ["all parallel operations"])

p("C26", "Simulated Gaussian maps have exactly the requested beam-convolved spectra",
  "Simulated full-sky and flat-sky Gaussian fields are linear in the noise draw with, at every multipole or Fourier mode, a component covariance equal to the requested matrix of auto- and cross-spectra (in the documented ordering) times the beams, zero beyond the given limits; the same seed gives the same maps. Malformed inputs (wrong number of spectra or beams, short beams, bad spins) are refused.",
  ["inputs", "configurations"], "all spectra, beams, spins, seeds, patch geometries",
  "Statistical tests with loose tolerance on one spectrum.",
  ["src/flatsky_utils.c", "src/nmt_field_flat.c", "pymaster/utils.py"],
  [("fs_synalm / nmt_synfast_flat", "src/flatsky_utils.c, src/nmt_field_flat.c"), ("synfast_spherical / synfast_flat", "pymaster/utils.py")],
  [], ["synfast_spherical", "synfast_flat"])

p("C27", "Purified fields are the projections on pure E and B modes",
  "The harmonic coefficients of a purified curved- or flat-sky spin-2 field equal, for each purified component, the inner products of the input map with the pure modes built from the mask (spin-lowered mask times spin-2, spin-1 and spin-0 harmonics with the correct multipole factors), iterated where iterations are requested; non-purified components are the ordinary ones. The stored map is the synthesis of those coefficients, templates are purified in the same way as the map, and a map that is a pure E signal leaves nothing in the purified B component. Multipoles (modes) for which the pure harmonics are undefined are zero.",
  ["inputs", "configurations"], "all masks, maps, templates, purification flags, limits and patches",
  "Tests check that one simulated E map leaks less into B than before, with a loose tolerance.",
  ["pymaster/field.py", "src/nmt_field_flat.c", "src/flatsky_utils.c"],
  [("NmtField._purify", "pymaster/field.py"), ("nmt_purify_flat / walm_x_lpower", "src/nmt_field_flat.c")],
  [], ["NmtField(purify_e/purify_b).get_alms", "NmtFieldFlat(purify_*).get_maps"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
