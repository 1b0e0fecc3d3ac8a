#!/usr/bin/env python3
"""Regenerates properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe_at=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe_at:
        a["observe_at"] = observe_at
    a["hook_needed"] = False
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

WS = "pymaster/workspaces.py"; FL = "pymaster/field.py"; UT = "pymaster/utils.py"
CV = "pymaster/covariance.py"; BN = "pymaster/bins.py"; WR = "pymaster/namaster_wrap.c"
MA = "src/nmt_master.c"; MF = "src/nmt_master_flat.c"

p("P01", "Curved-sky mode-coupling matrix equals its definition",
  "For every pair of fields, the mode-coupling matrix stored by a curved-sky workspace equals the exact sum over Wigner-3j symbols of the cross-pseudo-spectrum of the two masks, for every pair of multipoles and every block (TT, TE/TB, EE/EB/BE/BB, and the joint TEB layout), with E/B purification of either field changing exactly the blocks the theory says. "
  "Elements at multipoles below the spin are zero and no element is left unset.",
  ["inputs", "configurations"],
  "all spin pairs, all purification combinations, TEB on/off, all lmax / mask lmax up to a bound with lmax_mask at, above and below lmax, and every mask power spectrum (spanned by unit impulses at each multipole, since the matrix is linear in it), plus end-to-end fields with unequal masks",
  "The tests that compare coupling matrices to references are not collected at this commit, and use one nside and one mask; they never separate the contribution of one mask multipole to one block.",
  [MA, "src/utils.c", WS, WR],
  [("coupling sums", "nmt_compute_master_coefficients, nmt_compute_coupling_matrix in src/nmt_master.c"), ("Wigner 3j recursion", "drc3jj in src/utils.c"), ("python entry", "NmtWorkspace.compute_coupling_matrix")],
  [("coupling matrix", "(lmax+1)*ncls square matrix interleaved by spectrum")], "get_coupling_matrix()")

p("P02", "Coupling, binning, decoupling and bandpower windows agree",
  "For every workspace, coupling a spectrum applies the stored coupling matrix after the beams, decoupling inverts exactly the binned (weighted, f_ell-scaled, beam-corrected) matrix after subtracting noise and bias, and the bandpower windows are exactly the linear map 'couple then decouple'. "
  "In particular decoupling the coupled version of a piecewise-constant spectrum returns that spectrum's bandpowers, and outputs depend on no multipole outside the bins.",
  ["inputs", "configurations"],
  "all spin pairs and TEB, all small binnings (gaps, non-uniform weights, f_ell), all beam shapes from a set, every unit-impulse spectrum, with and without noise/bias, inputs longer than lmax+1",
  "Existing tests check a handful of fixed spectra with one binning; linearity lets impulses cover every input at the bound.",
  [MA, WS, "src/nmt_bins.c", WR],
  [("binning and inversion", "nmt_workspace binned matrix + GSL LU in src/nmt_master.c"), ("couple/decouple", "nmt_couple_cl_l, nmt_decouple_cl_l"), ("windows", "nmt_compute_bandpower_windows")],
  (), "couple_cell, decouple_cell, get_bandpower_windows")

p("P03", "Workspace state depends only on its last inputs, over any history",
  "After any sequence of computing, updating beams, updating bins, replacing the coupling matrix, writing and reading, including operations that are rejected with an error, a workspace behaves exactly as one freshly built from the mask, beams, bins and matrix currently in force. "
  "A rejected operation leaves a workspace that is either unchanged or reports itself uninitialised, never a crash or stale half-state.",
  ["histories", "fault_sequences"],
  "all operation sequences up to a depth over an alphabet of compute, beam, bin and matrix updates, write, read with and without the unbinned matrix, and failing variants, for curved and flat workspaces",
  "Tests exercise each update once on a fresh object; order-dependent staleness (a rebinned matrix keeping the old LU factor, a beam update forgetting one product) needs sequences.",
  [WS, MA, "src/nmt_io.c"],
  [("in-place updates", "nmt_workspace_update_beams / _update_bins / _update_coupling_matrix in src/nmt_master.c"), ("python state", "NmtWorkspace.wsp and has_unbinned")],
  [("has_unbinned", "whether the unbinned matrix is available"), ("binned LU", "factorised binned matrix used by decoupling")], "all public NmtWorkspace methods")

p("P04", "FITS files written by workspaces read back to an equivalent object",
  "Writing any workspace (curved, flat, curved covariance, flat covariance) to a FITS file and reading it back yields an object whose every observable result equals the original's, and which can be updated and written again with the same outcome. "
  "Writing replaces an existing file, and reading with the unbinned or spin-0-only options gives the same results for what is still available and a clean refusal for what is not. "
  "Curved workspace files in the earlier layouts the reader supports (a table per bandpower, a row per multipole, no normalisation keyword) read back equivalently too.",
  ["inputs", "configurations", "histories"],
  "all spin pairs, TEB, normalisations, binnings, beams, lmax != lmax_mask, read options, write-read-write chains up to depth 3",
  "Round trips are tested on one or two stored workspaces; fields that are not persisted only show up in a particular later operation.",
  ["src/nmt_io.c", WS, CV],
  [("FITS writers and readers", "nmt_workspace_write_fits/_read_fits and the flat and covariance versions in src/nmt_io.c")],
  [("file contents", "keywords and HDUs that represent a workspace")], "read_from / write_to")

p("P05", "Damaged or wrong workspace files give an error, never a crash or garbage",
  "Reading a workspace file that is missing, of another kind, truncated at any point, lacks or repeats any of its parts, lacks any mandatory header keyword, or has sizes or indices that are ill-formed, out of range or inconsistent with its tables either raises a Python exception or yields an object equal to the original; whatever the file contains, it never crashes the interpreter or hangs. "
  "A failed read leaves the object usable (uninitialised), a later read of a good file succeeds, and a write that runs out of space raises an exception and leaves the object unharmed.",
  ["crash_points", "fault_sequences"],
  "every truncation point at FITS-block granularity and inside, deletion/duplication/reordering of every HDU, removal or replacement of every keyword, out-of-range value of every index entry, every file-size limit while writing, for the four kinds of file, each followed by a read of a good file",
  "Tests only try to open one missing file and one incompatible file; a torn write may end anywhere.",
  ["src/nmt_io.c", WR],
  [("readers", "nmt_*_read_fits in src/nmt_io.c"), ("error propagation", "report_error and the SWIG exception handler")],
  (), "read_from / from_file")

p("P06", "Curved-sky Gaussian covariance equals its definition",
  "The curved-sky Gaussian covariance, coupled and decoupled, equals the narrow-kernel formula evaluated exactly: the geometric mean-free symmetrised products of the input spectra, the spin-appropriate coupling of the two mask-product spectra, and the two inverse binned coupling matrices, for every spin combination. "
  "Consequently it is bilinear in the spectra, symmetric when the two pairs coincide and transposes when the pairs are exchanged, and every element of the result is defined.",
  ["inputs", "configurations"],
  "all 16 combinations of spins 0/2 (and other spins) of the four fields, every pair of unit-impulse input spectra, different binnings for the two spectra, coupled and decoupled, spin-0-only",
  "The C covariance tests crash and the Python ones are not collected in the stable set, so the index algebra over up to 16x16 blocks is essentially untested.",
  ["src/nmt_covar.c", CV, WR],
  [("coefficients", "nmt_covar_workspace_init"), ("covariance assembly", "nmt_compute_gaussian_covariance(_coupled)")],
  [("xi coefficients", "coupling coefficients per spin combination")], "gaussian_covariance")

p("P07", "Flat-sky Gaussian covariance equals its definition",
  "The flat-sky Gaussian covariance equals the narrow-kernel formula evaluated exactly from the Fourier transforms of the mask products over the pixels in each pair of bands, contracted with the inverse binned coupling matrices, for every spin combination; spectra with different bandpowers or patches are refused. "
  "It is symmetric when the two pairs coincide and transposes when they are exchanged.",
  ["inputs", "configurations"],
  "all 16 spin combinations, every pair of unit-impulse spectra, square and non-square patches, bands with gaps",
  "Covered by one comparison in tests that are not part of the stable set.",
  ["src/nmt_covar_flat.c", CV, WR],
  [("coefficients", "nmt_covar_workspace_flat_init"), ("covariance assembly", "nmt_compute_gaussian_covariance_flat")],
  (), "gaussian_covariance_flat")

p("P08", "Curved-sky bandpower bookkeeping is exact",
  "For every assignment of multipoles, weights and prefactors to bands, the band's multipole list, normalised weights, counts, effective multipole, binning and unbinning are exactly those of the definition; multipoles with negative band index or beyond lmax are ignored, and unbinning then binning is the identity. "
  "The linear and edge constructors produce exactly the documented bands.",
  ["inputs", "configurations"],
  "all assignments of the multipoles up to a bound to up to three bands, weight and f_ell patterns, lmax below/equal/above the listed multipoles; all (lmax or nside, width) pairs up to a bound; all edge sets up to a bound",
  "A test samples two or three schemes; gaps, reordered multipoles, partial last bands and interleaved bands are not covered.",
  ["src/nmt_bins.c", BN, WR],
  [("construction", "nmt_bins_create in src/nmt_bins.c"), ("binning", "nmt_bin_cls / nmt_unbin_cls"), ("python constructors", "NmtBin.from_*")],
  (), "NmtBin methods")

p("P09", "Flat-sky bandpower bookkeeping is exact",
  "A flat-sky band scheme with bands in increasing order assigns a multipole to the band whose half-open interval contains it and to none otherwise, independently of which multipoles were looked up before; binning samples the (linearly interpolated) spectrum at band centres, and unbinning returns the band's value inside each band and one fixed fill value outside every band.",
  ["inputs", "histories"],
  "all band layouts built from a small set of edges (contiguous, with gaps, single band), every lookup position (edges, centres, gaps, outside) and every ordered pair of successive lookups",
  "Only contiguous bands are tested; the fast lookup is history dependent.",
  ["src/nmt_bins_flat.c", BN, WR],
  [("band lookup", "nmt_bins_flat_search_fast"), ("binning", "nmt_bin_cls_flat / nmt_unbin_cls_flat")],
  [("last band index", "cached starting point of the search")], "NmtBinFlat methods, flat pseudo-spectra")

p("P10", "Curved-sky field construction masks and deprojects exactly",
  "A field's stored maps are the input maps times the mask (or as given when declared already masked), minus the best-fit combination of the masked templates under the pixel-area inner product, so that they are orthogonal to every template, invariant to adding any template combination to the data, and unaffected by redundant templates; its harmonic coefficients are the transform of those maps. "
  "Lightweight fields give the same coefficients, and mask-only fields the same coupling matrix.",
  ["inputs", "configurations"],
  "HEALPix and CAR geometries, spins, number of templates, linearly dependent templates, masked_on_input, lite, all unit-impulse maps at small resolution",
  "Tests use one mask and one template set; the identities must hold for every map, which linearity lets impulses span.",
  [FL, UT],
  [("construction", "NmtField.__init__"), ("pseudo-inverse", "moore_penrose_pinvh"), ("inner product", "_SHTInfo.dot_map")],
  (), "get_maps, get_alms, get_templates, alphas")

p("P11", "Curved-sky transforms and pseudo-spectra equal explicit harmonic sums",
  "Spherical harmonic analysis and synthesis equal explicit sums over spin-weighted harmonics at the true pixel positions with the declared quadrature weights, for every spin, pixelisation and number of refinement iterations, and the pseudo-spectrum of two fields is the m-average of their coefficients in the declared component order. "
  "Exchanging the two fields transposes the components, and the two transform back ends agree.",
  ["inputs", "configurations"],
  "every unit-impulse map and every unit-impulse coefficient at small resolution, spins 0..3, HEALPix and CAR full/partial sky, n_iter 0..3, both calculators, lmax at/below/above the default",
  "Tests compare against healpy on a smooth map at one resolution.",
  [UT, WS],
  [("transforms", "map2alm / alm2map and _SHTInfo"), ("pseudo-spectrum", "compute_coupled_cell")],
  (), "map2alm, alm2map, compute_coupled_cell")

p("P12", "Curved-sky deprojection bias equals the exact expectation",
  "The deprojection bias returned for any pair of fields equals the difference between the expected pseudo-spectrum of the deprojected and undeprojected fields for Gaussian signals with the guess spectrum, and the uncorrelated-noise version equals that expectation for white noise with the given variance map. "
  "Both are zero without templates, bilinear in the spectrum or variance, and consistent between field orderings.",
  ["inputs", "configurations"],
  "all spin pairs, 0..2 templates on either field, unequal masks, purification, every unit-impulse guess spectrum, impulse variance maps",
  "Tests compare with one stored benchmark; exact expectation via the full pixel-space linear algebra needs small exhaustive cases.",
  [WS, FL],
  [("signal bias", "deprojection_bias"), ("noise bias", "uncorr_noise_deprojection_bias")],
  (), "deprojection_bias, uncorr_noise_deprojection_bias")

p("P13", "E/B purification applies the defining differential operators",
  "Purified coefficients equal the analysis of the mask-derivative-weighted maps prescribed by pure-E/B theory for every map, mask and purification choice, on curved and flat skies alike; requesting purification of one component leaves the other's ordinary coefficients unchanged. "
  "On the flat sky this includes non-square pixels.",
  ["inputs", "configurations"],
  "all four (E,B) purification choices, every unit-impulse Q/U map and a spanning set of masks at small resolution, HEALPix/CAR/flat, square and non-square pixels, lmax equal to and different from lmax_mask, masked_on_input",
  "Tests check only that leakage is reduced for one map or that a benchmark is reproduced.",
  [FL, "src/nmt_field_flat.c"],
  [("curved", "NmtField._purify"), ("flat", "nmt_purify_flat and walm_x_lpower")],
  (), "get_alms/get_maps, flat pseudo-spectra")

p("P14", "Catalogue fields equal explicit sums over sources",
  "The coefficients of a catalogue field and of its mask are the explicit sums over sources of weight times field times conjugate harmonic, its noise levels are the stated sums of squares, positions in degrees and in radians give the same field, and weighting before or inside construction is equivalent. "
  "Auto-spectra and auto-coupling matrices have exactly that noise removed and cross-spectra none; clustering fields use the data-minus-scaled-randoms density.",
  ["inputs", "configurations"],
  "all small catalogues from a grid of special positions (poles, 0/360 boundary, equator), spins, weights including zero and negative, lonlat on/off, lmax_mask, catalogue x map and clustering fields",
  "Tests use random catalogues and compare statistically.",
  [FL, WS, UT],
  [("construction", "NmtFieldCatalog, NmtFieldCatalogClustering"), ("noise removal", "compute_coupled_cell and compute_coupling_matrix")],
  (), "get_alms, get_mask_alms, Nw, Nf, alpha, compute_coupled_cell, get_coupling_matrix")

p("P15", "HEALPix mask apodisation follows its distance definition",
  "Apodising a HEALPix mask multiplies every pixel by the documented function of the angular distance to the nearest zero pixel (or, for smoothing, masks the disc, smooths and re-multiplies), for every mask, scale and type; zero pixels stay zero and, for the C1 and C2 types, values never grow and pixels farther than the scale are untouched.",
  ["inputs"],
  "at small nside: every single-pixel hole, every two-pixel hole, complements, empty and full masks, non-binary masks, scales from far below a pixel to the whole sphere, all types, any number of threads",
  "Tests check one mask and a few properties of the result; the neighbour search buffers and disc radii depend on scale and position.",
  ["src/nmt_mask.c", "src/healpix_extra.c", UT],
  [("apodisation", "nmt_apodize_mask"), ("disc query", "he_query_disc")],
  (), "mask_apodization")

p("P16", "Flat-sky mask apodisation follows its distance definition",
  "Apodising a flat mask multiplies every pixel by the documented function of the physical distance to the nearest zero pixel (or smooths as documented), for every mask, pixel aspect ratio, scale and type; zero pixels stay zero and, for the C1 and C2 types, pixels farther than the scale are untouched.",
  ["inputs"],
  "all binary masks on tiny grids, all single-hole masks on larger ones, square and non-square pixels, all types, scales below a pixel to beyond the patch",
  "Tests use only square pixels and one mask.",
  ["src/nmt_mask_flat.c", UT],
  [("apodisation", "nmt_apodize_mask_flat")], (), "mask_apodization_flat")

p("P17", "Results do not depend on how the map geometry is stored",
  "For rectangular maps, every orientation of the axes (rising or falling declination and right ascension), reference pixel and azimuth origin of the same sky gives the same harmonic coefficients and spectra; headers with another projection, a reference row away from the equator, pixels that do not divide the sphere, rows beyond the poles or more than a full turn of columns are rejected; two geometries compare equal exactly when their pixels coincide, and HEALPix resolution is inferred exactly.",
  ["inputs", "configurations"],
  "all sign choices of the axes, all patch positions touching or avoiding poles and the 0/360 line, all small shapes; all pairs for equality",
  "Tests cover a few header variants.",
  [UT],
  [("geometry", "NmtMapInfo"), ("quadrature rings", "_SHTInfo.from_rectpix / from_nside")],
  (), "NmtMapInfo, NmtField, synfast_spherical")

p("P18", "Toeplitz approximation is exact where it claims to be",
  "With the Toeplitz approximation the coupling matrices and covariance coefficients equal the exact ones at every multipole declared exact, equal the documented constant-correlation extrapolation (from column l_toeplitz, and from column l_exact within the band width) elsewhere, and parameter sets outside the documented ranges (or combined with purification) are refused.",
  ["inputs", "configurations"],
  "all (l_toeplitz, l_exact, dl_band) up to a bound for all spin pairs and TEB, every unit-impulse mask spectrum",
  "Tests use one parameter triple and a tolerance of a per cent.",
  [MA, "src/nmt_covar.c", UT],
  [("approximation", "populate_toeplitz in src/nmt_master.c"), ("checks", "_toeplitz_sanity")], (), "get_coupling_matrix, gaussian_covariance")

p("P19", "Results do not depend on threads or their interleaving",
  "For every parallel computation in the library, the result is the same (to rounding) for every number of threads, every assignment of work to threads and every interleaving of their memory accesses, and no two threads make conflicting unsynchronised accesses.",
  ["schedules"],
  "all interleavings of synchronisation events and all chunk assignments up to a bound for 1..4 threads, on every parallel region of the native code",
  "Tests run one schedule chosen by the OS; a race manifests rarely and only on some machines.",
  [MA, MF, "src/nmt_covar.c", "src/nmt_covar_flat.c", "src/nmt_mask.c", "src/nmt_mask_flat.c", "src/flatsky_utils.c", "src/nmt_field_flat.c"],
  [("parallel regions", "every '#pragma omp' in src/*.c")], (), "every native entry point")

p("P20", "Invalid input is refused with an exception, never a crash",
  "Every call with inputs of inconsistent shape, length, type of object, uninitialised object or out-of-range parameter raises a Python exception; it never terminates the interpreter, hangs or returns numbers computed from out-of-bounds memory, and after the refusal the objects involved still give correct results. Likewise, copying any object is refused or gives an independent object.",
  ["inputs", "fault_sequences"],
  "for every public entry point, each argument replaced in turn (and in pairs) by each of a fixed alphabet of invalid variants, under memory-error detection",
  "Tests try selected errors; the native layer trusts lengths passed from Python.",
  ["pymaster/workspaces.py", "pymaster/field.py", "pymaster/bins.py", "pymaster/covariance.py", "pymaster/utils.py", WR, "src/utils.c"],
  [("validation", "python-level checks"), ("native errors", "report_error / asserting and SWIG exception handler")], (), "every public call")

p("P21", "Inputs are never modified and results are never aliased",
  "No public call modifies the arrays, lists or objects passed to it, and no returned array changes later or, when modified by the caller, changes the state of the library's objects' numerical results, unless documented as an accessor of the object's own arrays.",
  ["inputs", "histories"],
  "every public call with every array argument in each memory layout and dtype (C/F order, views with negative strides, read-only, big-endian, float32, lists), compared byte for byte before and after",
  "Tests do not look at the inputs afterwards.",
  ["pymaster/field.py", "pymaster/workspaces.py", "pymaster/utils.py", WR],
  [("array conversion", "numpy typemaps in namaster_wrap.c"), ("copies", "NmtField.__init__")], (), "every public call")

p("P22", "Flat-sky fields and pseudo-spectra equal explicit Fourier sums",
  "A flat-sky field's maps are masked and template-deprojected exactly as defined, and the flat pseudo-spectrum of two fields is the average over the Fourier pixels in each band, excluding the cut ranges, of the products of their Fourier coefficients with the documented normalisation, sign and E/B rotation convention.",
  ["inputs", "configurations"],
  "every unit-impulse map on small grids of odd/even, square/non-square shape, all spin pairs, bands with gaps and beyond Nyquist, all cut combinations, templates 0..2, masked_on_input, lite",
  "Tests compare with one stored benchmark on one square-pixel map.",
  ["src/nmt_field_flat.c", "src/flatsky_utils.c", MF, FL],
  [("transforms", "fs_map2alm / fs_alm2map"), ("pseudo-spectrum", "nmt_compute_coupled_cell_flat, fs_alm2cl"), ("deprojection", "nmt_field_flat_alloc")], (), "NmtFieldFlat, compute_coupled_cell_flat")

p("P23", "Flat-sky mode-coupling matrix, coupling and decoupling are exact",
  "The flat-sky coupling matrix equals the explicit double sum over Fourier pixels of the mask cross-power with the spin rotation (and purification) factors, averaged over bands with the cuts applied, and coupling and decoupling apply that matrix and its exact inverse with beams, noise and bias handled as documented.",
  ["inputs", "configurations"],
  "all spin pairs, purification choices and TEB, tiny grids, cuts, beams, every unit-impulse spectrum",
  "Flat coupling-matrix tests are not in the stable set.",
  [MF, WS, WR],
  [("coupling sums", "nmt_compute_coupling_matrix_flat"), ("couple/decouple", "nmt_couple_cl_l_flat_fast, nmt_decouple_cl_l_flat")], (), "NmtWorkspaceFlat")

p("P24", "Flat-sky deprojection bias equals the exact expectation",
  "The flat-sky deprojection bias of any pair of fields equals the exact difference between expected pseudo-spectra with and without deprojection for signals with the guess spectrum, is zero without templates and linear in the guess spectrum.",
  ["inputs", "configurations"],
  "all spin pairs, 0..2 templates on either field, unequal masks, every unit-impulse guess spectrum, cuts, purification",
  "One benchmark comparison.",
  ["src/nmt_master_flat.c", WS],
  [("bias", "nmt_compute_deprojection_bias_flat")], (), "deprojection_bias_flat")

p("P25", "Simulated maps have exactly the requested covariance and are reproducible",
  "Simulated Gaussian maps are a linear function of unit Gaussian variates whose implied covariance is exactly the requested set of spectra (with beams and spins), in the documented component order, and a non-negative seed makes the output reproducible, independent of threads and previous calls, while different seeds differ.",
  ["inputs", "configurations", "schedules"],
  "all field combinations up to three fields, every single spectrum non-zero, HEALPix/CAR/flat, seeds, thread counts",
  "Tests check variances statistically on one realisation.",
  ["src/flatsky_utils.c", UT],
  [("curved", "synfast_spherical"), ("flat", "fs_synalm, nmt_synfast_flat")], (), "synfast_spherical, synfast_flat")

p("P26", "Anisotropic-weight coupling is exact",
  "For fields with anisotropic (matrix) weights the maps are the matrix-weighted input maps, and the coupling matrix equals the exact response of the pseudo-spectrum to the sky spectrum including all weight cross-spectra, for each combination of anisotropic and isotropic fields; equal diagonal weights with zero off-diagonal reduce to the isotropic result.",
  ["inputs", "configurations"],
  "which of the two fields is anisotropic, spins, every unit impulse of each of the nine weight spectra, tiny-nside end-to-end expectation",
  "One test compares to a tolerance of per cent level on one mask, symmetric in the two fields.",
  [MA, WS, FL, WR],
  [("coupling", "nmt_compute_coupling_matrix_anisotropic"), ("weights", "NmtField anisotropic masks")], (), "get_coupling_matrix, get_maps")

p("P27", "Default parameters behave as a simple, validated register",
  "The global defaults always equal the last accepted values, a rejected change leaves all of them unchanged, each default is used exactly by the calculations that do not override it, and objects already built are not affected by later changes.",
  ["histories"],
  "all sequences of accepted and rejected setter calls up to depth 4 with observations of every default's effect",
  "Tests set and reset each once.",
  [UT],
  [("register", "NmtParams and the set_* functions")],
  [("nmt_params", "global defaults")], "get_default_params and behaviour of map2alm / NmtField")

p("P28", "FKP normalisation divides by the mean mask product",
  "With FKP normalisation the decoupled bandpowers are the binned pseudo-spectrum divided by the sky average of the product of the masks (or the shot-noise level for a catalogue), for every workspace and after every update, write and read, and windows are consistent with it; unknown normalisations and mixed catalogues are refused.",
  ["inputs", "configurations", "histories"],
  "all spin pairs, masks, binnings, weights, beams, histories of updates and file round trips",
  "One test on one mask.",
  [WS, MA, "src/nmt_io.c"],
  [("normalisation", "norm_type and w2 in the workspace")], (), "decouple_cell, get_bandpower_windows")

p("P29", "One-call estimators equal their step-by-step composition",
  "The full estimators for curved and flat skies return exactly what the separate coupling-matrix, pseudo-spectrum, deprojection-bias and decoupling steps return, for every combination of optional arguments, whether or not a workspace is passed.",
  ["inputs", "configurations"],
  "all combinations of presence/absence of noise, guess, workspace, templates, cuts, purification, spins, normalisation and Toeplitz options; lite and catalogue fields",
  "Only two or three combinations are tested.",
  [WS, MF],
  [("composition", "compute_full_master, compute_full_master_flat / nmt_compute_power_spectra_flat")], (), "compute_full_master(_flat)")

p("P30", "Compatibility of fields is an equivalence and is enforced",
  "Compatibility of fields is reflexive, symmetric and transitive, is implied by its strict version, coincides with equality of resolution/geometry and band limits, and every operation combining fields, bins or workspaces accepts exactly the compatible combinations and refuses all others.",
  ["inputs", "configurations"],
  "all ordered pairs and triples of a set of fields over geometries, lmax, lmax_mask, catalogue/map; all operations",
  "A test checks a few pairs.",
  [FL, WS, CV, UT],
  [("relation", "NmtField.is_compatible, NmtMapInfo.__eq__, NmtAlmInfo.__eq__")], (), "is_compatible and every two-field operation")

p("P31", "Native memory and file handles are released",
  "Every public operation gives back what it takes: once every object made by a sequence of calls has been deleted, the memory held by the compiled extension and its libraries and the set of open files are as before the sequence, whatever the calls, their order (recomputation, reading, updating, refused requests) and the memory layout of their arguments. A refused request or a damaged file leaves no file open (memory held by a request that the compiled layer refuses half-way is not covered).",
  ["histories", "configurations", "fault_sequences"],
  "all operation sequences up to depth 3-4 on each class of workspace; every public call with every layout of its arguments and every single invalid argument; every truncation of every kind of file",
  "Tests do not look at memory: a pipeline of thousands of simulations does.",
  [WS, CV, UT, "src/nmt_master.c", "src/nmt_covar.c", "src/nmt_io.c", "pymaster/namaster.i"],
  [("lifecycle", "nmt_*_free, __del__ of the classes, SWIG typemaps of pymaster/namaster.i")], (), "every public function and class")

p("P32", "Results depend only on the arguments of the calls made",
  "The result of any operation is determined by its arguments and the documented global defaults: it is the same in a fresh process as after any other operations, while other objects are alive or after they have been deleted, when argument arrays are reused with new contents, and when the construction and use of several objects are interleaved. "
  "No two configurations that differ in a single value, size or option are ever confused.",
  ["histories", "schedules", "configurations"],
  "ten pipelines covering all parts; all ordered pairs of configurations that differ from a base in one parameter; objects kept, dropped, buffers refilled in place; every single-switch interleaving of two pipelines",
  "Tests build each object from one set of inputs; state shared between objects (caches keyed on too little, static buffers) shows only in the second, different, object.",
  [FL, WS, CV, UT, BN, "src/nmt_master.c", "src/utils.c"],
  [("shared state", "module-level state and caches of pymaster, static storage of src/*.c")], (), "every public function and class")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
import re
for q in P:
    assert len(q["title"]) <= 80, q["id"]
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
