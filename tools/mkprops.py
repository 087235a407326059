#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=observe, hook_needed=None)))

p("B01", "Curved-sky binning schemes are normalised weighted partitions",
  "For every way of building a curved-sky binning scheme (explicit arrays, constant-width from nside or lmax, band edges), band b contains exactly the supplied multipoles with band index b that do not exceed lmax, in the order given; negative indices and multipoles above lmax are ignored, and weights are rescaled to sum to 1 in each band. Constant-width schemes start at ell=2, have contiguous bands of the requested width and drop an incomplete last band; edge schemes contain exactly [ini,end). Effective multipoles, min/max multipoles, counts and weight lists all describe that same partition, and a band whose weights do not sum to a positive number is rejected.",
  ["inputs", "configurations"], "all assignments of multipoles to bands, weights, prefactors, lmax, nside, widths and edges",
  "Tests check three fixed schemes; the assignment space (gaps, unordered or truncated multipoles, zero weights, widths that do not divide the range) is not sampled.",
  ["pymaster/bins.py", "src/nmt_bins.c", "pymaster/namaster_wrap.c"],
  [("scheme construction and weight normalisation", "nmt_bins_create in src/nmt_bins.c"), ("convenience constructors", "NmtBin.from_* in pymaster/bins.py")],
  ["NmtBin getters"], [("bands", "sequence of (ell, weight, f_ell) lists", "nmt_binning_scheme")])

p("B02", "Binning is the weighted band average and unbinning is its right inverse",
  "bin_cell returns for every spectrum and band the sum over the band of weight times prefactor times C_ell, whatever the values outside the bands; unbin_cell assigns to every multipole of a band the bandpower divided by its prefactor and zero elsewhere. Hence binning an unbinned set of bandpowers returns it unchanged, and both maps are linear and act on each spectrum of a stack independently. Prefactors that are not positive count as 1, and is_Dell means ell(ell+1)/2pi.",
  ["inputs", "configurations"], "all binning schemes, prefactors, spectra and numbers of spectra",
  "Tests bin one or two smooth spectra with one scheme; they cannot cover all schemes, prefactors and shapes.",
  ["pymaster/bins.py", "src/nmt_bins.c"],
  [("bin", "nmt_bin_cls"), ("unbin", "nmt_unbin_cls")], ["NmtBin.bin_cell", "NmtBin.unbin_cell"])

p("B03", "Flat-sky bands are half-open intervals, independent of sampling order",
  "A flat-sky band b (bands in increasing order, gaps allowed) consists of the multipoles l with l0[b] <= l < lf[b]. unbin_cell gives each sampled multipole the value of the band that contains it, and -999 if none does; the result for one multipole never depends on which other multipoles are in the request or on their order. Effective multipoles are band centres, and bin_cell returns the linear interpolation of the samples there (the end samples beyond the sampled range).",
  ["inputs", "histories", "configurations"], "all band edges (with gaps), multipole samples and orders",
  "The tests use contiguous bands and increasing multipoles, where the incremental search cannot go wrong.",
  ["pymaster/bins.py", "src/nmt_bins_flat.c"],
  [("incremental band search", "nmt_bins_flat_search_fast"), ("bin/unbin", "nmt_bin_cls_flat, nmt_unbin_cls_flat")], ["NmtBinFlat.bin_cell", "NmtBinFlat.unbin_cell", "NmtBinFlat.get_effective_ells"])

p("M01", "The mode-coupling matrix is the Wigner-3j expression for all spin pairs",
  "For every pair of fields the coupling matrix equals (2l'+1)/4pi times the sum over L of (2L+1) PCL_mask(L) times the product of the two 3j symbols of the fields' spins, with the parity-even part coupling EE-EE, BB-BB, EB-EB, BE-BE, and the parity-odd part coupling EE-BB with a plus and EB-BE with a minus sign. Rows and columns are indexed L*n_cls+i with 1, 2, 4 or (joint TEB) 7 spectra, the joint matrix being exactly the block sum of the separate ones. Only multipoles below max(spin) are zero, mask multipoles up to lmax_mask contribute, and the mask's shot noise is removed only for the auto-correlation of one and the same catalog field.",
  ["inputs", "configurations"], "all masks, spins 0..4, lmax and lmax_mask, isotropic unpurified fields",
  "All tests of the coupling matrix compare with files that are missing here; even with them they cover one mask and one resolution.",
  ["src/nmt_master.c", "src/utils.c", "pymaster/workspaces.py", "pymaster/namaster_wrap.c"],
  [("3j recursion and accumulation", "nmt_compute_master_coefficients / drc3jj"), ("matrix population", "nmt_compute_coupling_matrix")],
  ["NmtWorkspace.get_coupling_matrix"])

p("M02", "E/B purification removes exactly the unwanted leakage, and the matrix says so",
  "When a spin-2 field is B-purified (E-purified), a smooth-masked signal with only E (B) modes produces no B (E) multipoles, while a signal in the purified component produces the multipoles of the scalar-masked potential; the unpurified component is unaffected. The coupling matrix of any combination of purified fields is the ensemble average of those multipoles, so pure spectra receive nothing from the other component. Purification is refused for spins other than 2.",
  ["inputs", "configurations"], "all combinations of purify_e/purify_b for both fields, all band-limited masks and maps, lmax, lmax_mask",
  "Tests only run purification on one or two maps and compare with stored output; the matrix tests cannot run.",
  ["pymaster/field.py", "src/nmt_master.c"],
  [("purified multipoles", "NmtField._purify"), ("purified coupling coefficients", "nmt_compute_master_coefficients")],
  ["NmtField.get_alms", "NmtField.get_maps", "NmtWorkspace.get_coupling_matrix"])

p("M03", "The Toeplitz approximation is exact where it says, correlation-filled elsewhere",
  "With l_toeplitz, l_exact, dl_band, coupling coefficients are computed exactly for all rows up to l_exact, and for multipole pairs closer than dl_band up to l_toeplitz as well as on the diagonal; all other elements follow from the correlation pattern along diagonals. Symmetry of the underlying coefficients is preserved, and inconsistent parameters or use with purification are refused.",
  ["configurations", "inputs"], "all (l_toeplitz, l_exact, dl_band) combinations, spins and masks",
  "Tests use a single configuration and a loose tolerance.",
  ["src/nmt_master.c", "pymaster/utils.py"],
  [("Toeplitz filling", "populate_toeplitz in src/nmt_master.c"), ("parameter checks", "_toeplitz_sanity in pymaster/utils.py")],
  ["NmtWorkspace.get_coupling_matrix"])

p("M04", "Anisotropic weights act as a 2x2 matrix on Q/U and couple accordingly",
  "A field with weight components (11,12,22) has the multipoles of the maps multiplied by that symmetric matrix, and equals the isotropic field when 11=22 and 12=0. The coupling matrix for any combination of isotropic and anisotropic fields is the ensemble average of those multipoles' spectra, including the cross terms between the isotropic part and the spin-2s part of the weights. Incomplete, non-positive-definite or unsupported combinations are refused.",
  ["inputs", "configurations"], "all weight matrices, spins >0 (and 0 for the other field), field pairings",
  "The one test compares an isotropic special case; each mixed term needs its own asymmetric masks to be visible.",
  ["pymaster/field.py", "pymaster/workspaces.py", "src/nmt_master.c"],
  [("weighting", "NmtField.__init__"), ("anisotropic coupling", "nmt_compute_coupling_matrix_anisotropic")],
  ["NmtField.get_alms", "NmtWorkspace.get_coupling_matrix"])

p("W01", "Coupling, decoupling and bandpower windows are consistent linear maps",
  "couple_cell multiplies the beam-multiplied spectra by the coupling matrix; decouple_cell solves the binned system for spectra minus noise minus bias; bandpower windows contracted with any spectrum equal decouple_cell(couple_cell(spectrum)). Under MASTER normalisation, decoupling a coupled piecewise-constant (unbinned) spectrum returns its bandpowers; under FKP each bandpower is divided by the mean mask product instead. All of it holds for 1, 2, 4 and 7 spectra, any beams, weights and prefactors, and with inputs longer than needed truncated.",
  ["inputs", "configurations"], "all coupling matrices, beams, binning schemes, normalisations, spectra",
  "The tests that decouple cannot run without their data files; identities must hold for every matrix and scheme.",
  ["src/nmt_master.c", "pymaster/workspaces.py", "pymaster/namaster_wrap.c"],
  [("couple", "nmt_couple_cl_l"), ("decouple", "nmt_decouple_cl_l"), ("windows", "nmt_compute_bandpower_windows")],
  ["NmtWorkspace.couple_cell", "decouple_cell", "get_bandpower_windows"])

p("W02", "A workspace's behaviour depends only on its current matrix, beams and bins",
  "After any sequence of recomputation, beam updates, binning updates, coupling-matrix updates, writes and reads, a workspace behaves exactly as one built directly with the matrix, beams, binning and normalisation last put in place, whatever the order and repetition of the steps. Updating one ingredient never alters another, and other workspaces, fields and binning objects are never affected.",
  ["histories"], "all sequences of lifecycle operations on one or several workspaces",
  "Tests exercise each update once from a fresh workspace; order- and history-dependence needs sequences.",
  ["pymaster/workspaces.py", "src/nmt_master.c", "src/nmt_io.c"],
  [("updates", "nmt_workspace_update_beams/bins/coupling_matrix"), ("binned matrix and LU refresh", "nmt_workspace_update_binning")],
  ["get_coupling_matrix", "couple_cell", "decouple_cell", "get_bandpower_windows"],
  [("mcm, beams, bins, norm", "current ingredients", "nmt_workspace")])

p("W03", "Writing an object to a file and reading it back preserves its behaviour",
  "Workspaces (curved and flat) and covariance workspaces (curved and flat) read from a file written by the library give the same matrices, couplings, decouplings, windows and covariances as the object written, for every spin pair, normalisation, binning, beam and flag, and can be updated and written again. Reading without the unbinned matrix keeps everything that does not need it and refuses the rest; reading a covariance file for spin-0 only keeps the spin-0 results. An existing file is replaced.",
  ["histories", "configurations"], "all objects that can be written, all read options, repeated round trips",
  "The IO tests cannot run (their inputs are missing), and covered one object of each type.",
  ["src/nmt_io.c", "pymaster/workspaces.py", "pymaster/covariance.py"],
  [("FITS serialisation", "src/nmt_io.c"), ("read options", "read_from in workspaces.py and covariance.py")],
  ["write_to", "read_from", "from_file"])

p("W04", "Invalid requests are refused with an exception and change nothing",
  "A call with arguments the documentation excludes (wrong shapes or lengths, incompatible fields, unknown options, missing files, uninitialised or partially read objects) raises a Python exception, never crashes the process or returns a result, and leaves every object involved in the state it had before, so that later valid calls give the results they would have given.",
  ["fault_sequences", "histories"], "all sequences mixing valid and invalid calls on bins, fields, workspaces and covariance objects",
  "Tests assert that single bad calls raise on throw-away objects and never look at the state left behind.",
  ["pymaster/workspaces.py", "pymaster/field.py", "pymaster/bins.py", "pymaster/covariance.py", "pymaster/namaster_wrap.c"],
  [("argument checks", "public methods"), ("C error translation", "exception handling in namaster_wrap.c")],
  ["exceptions and later results of all public calls"])

p("W05", "The one-call MASTER estimator equals its documented sequence of steps",
  "compute_full_master returns exactly decouple_cell(pseudo-C_ell - noise) with the deprojection bias for the guess spectrum removed, using a supplied workspace or one computed with the given options (normalisation, Toeplitz), for every pair of fields including deprojected, purified and different-spin ones, and is refused where one of these steps is (such as for lightweight fields). It does not modify the fields, the workspace or the input arrays.",
  ["configurations", "inputs"], "all field pairs, optional arguments and workspaces",
  "The tests of this function cannot run; combinations of its options multiply.",
  ["pymaster/workspaces.py"], [("composition", "compute_full_master")], ["compute_full_master"])

p("F01", "Field multipoles are transforms of masked maps and pseudo-C_ell their averages",
  "A field's multipoles are the spherical-harmonic transform (of the field's spin, with the requested number of Jacobi iterations and lmax) of its maps times its mask, with maps already masked on input left alone, and are the same for lite and full fields. compute_coupled_cell returns for every ordered pair of components the m-averaged product of the multipoles, the pair (a,b) being at index a*n2+b, so swapping the fields transposes the pairs. Masks, maps, and mask multipoles returned by the getters are those used, and spins default to 0 or 2.",
  ["inputs", "configurations"], "all maps, masks, spins, n_iter, lmax, lmax_mask, HEALPix and CAR pixelisations, lite, masked_on_input",
  "Tests check shapes and a few special fields at one resolution.",
  ["pymaster/field.py", "pymaster/utils.py", "pymaster/workspaces.py"],
  [("masking and SHT", "NmtField.__init__"), ("spectra", "compute_coupled_cell")],
  ["NmtField getters", "compute_coupled_cell"])

p("F02", "Template deprojection removes exactly the masked templates' best fit",
  "The maps of a field with templates are the masked maps minus the linear combination of masked templates that minimises the residual under the pixelisation's area weighting, so that the residual is orthogonal to every masked template, adding any combination of templates to the input maps changes nothing, and linearly dependent or zero templates do no harm. This holds with any number of templates, spin, lite, masked_on_input, purification and pixelisation, and the coefficients reported reproduce the subtraction.",
  ["inputs", "configurations"], "all maps, masks, sets of templates (also degenerate), spins, flags",
  "Tests deproject one well-conditioned template set.",
  ["pymaster/field.py", "pymaster/utils.py"],
  [("normal equations", "NmtField.__init__ step 6"), ("pseudo-inverse", "moore_penrose_pinvh")],
  ["NmtField.get_maps", "get_templates", "alphas", "iM"])

p("F03", "Deprojection bias is the mean change of the pseudo-C_ell due to deprojection",
  "deprojection_bias returns the ensemble mean, over fields with the guess spectrum, of the pseudo-C_ell after deprojection minus before, for every pair of fields and number of templates (zero bias without templates), ordered like the pseudo-C_ell; uncorr_noise_deprojection_bias does so for uncorrelated noise of the given variance map, and is symmetric under exchange of components. Both are linear in the guess or variance.",
  ["inputs", "configurations"], "all template sets, masks, guess spectra (including cross-components), variance maps, spins",
  "Tests only check that it vanishes without templates or compare with missing files.",
  ["pymaster/workspaces.py"], [("bias terms", "deprojection_bias"), ("noise bias", "uncorr_noise_deprojection_bias")],
  ["deprojection_bias", "uncorr_noise_deprojection_bias"])

p("F04", "Pixelisation geometry is interpreted from the WCS, and mismatches are told apart",
  "A rectangular map describes the same sky, and gives the same multipoles, whichever way its axes run and however the reference pixel is chosen, and a partial map equals the full map padded with zeros; default lmax is 3nside-1 or pi over the smaller pixel size. Two map descriptions are equal exactly when they denote the same pixels; maps, masks or templates of another shape, projections other than CAR, off-equator references, non-integer divisions, maps beyond the poles or wrapping the sphere are refused.",
  ["inputs", "configurations"], "all WCS parameters and map shapes",
  "Tests use two or three WCS objects.",
  ["pymaster/utils.py", "pymaster/field.py"],
  [("geometry", "NmtMapInfo, _SHTInfo")], ["NmtMapInfo", "NmtField.get_alms"])

p("F05", "Fields and spectra are pure functions of their inputs",
  "Building fields and computing spectra, workspaces, biases and covariances never changes the arrays passed in or the objects involved; repeated calls, interleaved calls on other objects, changes made later to the caller's arrays, to other fields or to default parameters, and cached versus uncached mask multipoles all give the same results. Lite fields give the same spectra, workspaces and covariances as full ones.",
  ["histories"], "all interleavings of constructions, queries and mutations of caller-owned arrays",
  "Aliasing and caching show only in particular call orders; tests use each object once.",
  ["pymaster/field.py", "pymaster/workspaces.py", "pymaster/covariance.py"],
  [("copies and caching", "NmtField.__init__, get_mask_alms")], ["all getters and spectra"])

p("C01", "Catalog fields are sums over sources with the right shot noise",
  "A catalog field's mask and field multipoles are sums over sources of weight, and weight times value, times the conjugate harmonic at the source position, for positions given as colatitude/longitude in radians or longitude/latitude in degrees, independent of source order; values already weighted are not weighted again. Nw and Nf are sum w^2/4pi and sum |w f|^2/(4pi nmaps), subtracted from the auto mask spectrum and from the diagonal auto field spectra only when a field is correlated with itself. Positions outside the sphere and wrong shapes are refused.",
  ["inputs", "configurations"], "all catalogs, weights, spins, position conventions, lmax, lmax_mask, beams",
  "Tests use one random catalog with large-scale statistics.",
  ["pymaster/field.py", "pymaster/utils.py", "pymaster/workspaces.py"],
  [("catalog multipoles", "NmtFieldCatalog"), ("noise subtraction", "compute_coupled_cell, compute_coupling_matrix")],
  ["get_alms", "get_mask_alms", "Nw", "Nf", "compute_coupled_cell"])

p("C02", "Clustering catalogs measure data minus scaled randoms with total shot noise",
  "A clustering catalog field has as mask the random catalog scaled by alpha (the ratio of total weights), as field the data sources minus that mask, mask noise alpha^2 sum w_r^2/4pi and field noise sum w_d^2/4pi plus the mask noise, with either position convention and independent of source order. Its monopole vanishes, and rescaling all random weights changes nothing.",
  ["inputs"], "all data and random catalogs",
  "Tests use one pair of catalogs.",
  ["pymaster/field.py"], [("construction", "NmtFieldCatalogClustering")],
  ["get_alms", "get_mask_alms", "Nw", "Nf", "alpha"])

p("V01", "Curved-sky Gaussian covariances are the narrow-kernel formula for all spins",
  "The coupled covariance of two pseudo-spectra equals the sum over the two pairings of (averaged product of the guess spectra) times the coupling coefficients of the products of masks, for every combination of spins 0 and 2 and every component, at every multipole; the decoupled covariance is that matrix binned and sandwiched between the inverse binned coupling matrices of the two workspaces (or normalised as they are). Swapping the two spectra transposes the matrix, and the covariance of a spectrum with itself is symmetric.",
  ["inputs", "configurations"], "all masks, guess spectra, spins, binnings, normalisations, pairings of fields",
  "All covariance tests depend on files missing here; they covered one configuration.",
  ["src/nmt_covar.c", "src/utils.c", "pymaster/covariance.py"],
  [("coupling coefficients", "nmt_covar_workspace_init"), ("assembly", "nmt_compute_gaussian_covariance(_coupled)"), ("component bookkeeping", "cov_get_coupling_pair_index")],
  ["gaussian_covariance", "NmtCovarianceWorkspace"])

p("V02", "Flat-sky Gaussian covariances follow the mode-pair sum for all spins",
  "The flat-sky covariance of two sets of bandpowers equals the sum over the two pairings of averaged binned guess spectra times the average over mode pairs of the products of mask-product transforms and rotation factors, sandwiched between the inverse coupling matrices of the two workspaces, for all spin combinations and components. Swapping the two spectra transposes it and self-covariances are symmetric.",
  ["inputs", "configurations"], "all masks, patch shapes, bands, guess spectra, spins",
  "All flat covariance tests depend on files missing here.",
  ["src/nmt_covar_flat.c", "pymaster/covariance.py"],
  [("coefficients", "nmt_covar_workspace_flat_init"), ("assembly", "nmt_compute_gaussian_covariance_flat")],
  ["gaussian_covariance_flat", "NmtCovarianceWorkspaceFlat"])

p("L01", "Flat-sky fields mask, deproject and transform correctly; spectra average rings",
  "A flat-sky field holds the masked (or already masked) maps minus the least-squares fit of the masked templates, and the coupled spectrum in each band is the average over Fourier modes inside the band, outside the excluded strips in lx and ly, of the products of the E/B transforms, for square or rectangular patches with even or odd pixel numbers and any spin. Getters return those maps, masks and templates; lite fields give the same spectra.",
  ["inputs", "configurations"], "all patch sizes, maps, masks, templates, spins, bands, ell cuts, flags",
  "Tests check a few band-limited maps on one grid.",
  ["src/nmt_field_flat.c", "src/flatsky_utils.c", "pymaster/field.py"],
  [("field construction", "nmt_field_flat_alloc"), ("transforms and ring averages", "src/flatsky_utils.c")],
  ["NmtFieldFlat getters", "compute_coupled_cell_flat"])

p("L02", "Flat-sky coupling matrices are mode-pair sums and decoupling inverts them",
  "couple_cell gives, in each band, the average over the band's modes outside the excluded strips of the input spectra (interpolated, averaged over rings of one fundamental wave number, complete rings only) times beams, weighted with the power of the masks at the separation of the modes and rotated between E and B by the angle between them (purified components: scaled, not mixed), for every spin pair, joint TEB, patch and mask; decouple_cell solves the corresponding system summed over bands for the spectra minus noise minus bias. Both depend only on masks, beams, bands and cuts.",
  ["inputs", "configurations"], "all masks, patch shapes, spins, purification flags, bands, beams, ell cuts",
  "The tests that compute flat coupling matrices cannot run here.",
  ["src/nmt_master_flat.c", "pymaster/workspaces.py"],
  [("matrix", "nmt_compute_coupling_matrix_flat"), ("couple/decouple", "nmt_couple_cl_l_flat_*, nmt_decouple_cl_l_flat")],
  ["NmtWorkspaceFlat.couple_cell", "NmtWorkspaceFlat.decouple_cell"])

p("L03", "Flat-sky deprojection bias and full estimator agree with their definitions",
  "deprojection_bias_flat is the ensemble mean, over fields with the guess spectrum, of the change in the coupled spectrum caused by deprojection, ordered like it; compute_full_master_flat equals decoupling of coupled spectrum minus noise minus that bias, with a supplied workspace or a newly computed one, and the same excluded strips throughout.",
  ["inputs", "configurations"], "all template sets, guess spectra, masks, spins, ell cuts",
  "Tests cover the no-template case.",
  ["src/nmt_master_flat.c", "pymaster/workspaces.py"],
  [("bias", "nmt_compute_deprojection_bias_flat"), ("composition", "nmt_compute_power_spectra_flat")],
  ["deprojection_bias_flat", "compute_full_master_flat"])

p("A01", "Curved-sky apodisation follows the documented taper of the distance to the edge",
  "C1 and C2 apodisation multiply every pixel by the documented function of its angular distance to the nearest zero pixel, so zero pixels stay zero, pixels further than the scale are unchanged, and nothing else about the mask matters; Smooth zeroes everything within 2.5 scales of a zero pixel, smooths with the documented Gaussian and multiplies by the input mask. The input is not modified; a scale of zero leaves the mask as it is; unknown types and negative scales are refused.",
  ["inputs", "configurations"], "all masks, scales and types",
  "Tests use one disc mask and inspect a few pixels.",
  ["src/nmt_mask.c", "src/healpix_extra.c", "pymaster/utils.py"],
  [("taper", "apodize_mask_CX in src/nmt_mask.c"), ("smoothing", "mask_apodization in pymaster/utils.py"), ("disc query", "he_query_disc")],
  ["mask_apodization"])

p("A02", "Flat-sky apodisation follows the documented taper of the distance to the edge",
  "On a flat patch, C1, C2 and Smooth apodisation multiply every pixel by the documented function of its distance, in the patch's true units in each direction, to the nearest zero pixel; zero pixels stay zero, pixels further than the scale are unchanged, and a transposed patch gives the transposed result. The input is not modified; unknown types, negative scales, patches without extent and arrays that are not two-dimensional are refused.",
  ["inputs", "configurations"], "all masks, patch shapes (also non-square pixels), scales and types",
  "Tests use square pixels and one mask.",
  ["src/nmt_mask_flat.c", "pymaster/utils.py"],
  [("taper", "apodize_mask_CX in src/nmt_mask_flat.c")], ["mask_apodization_flat"])

p("S01", "Simulated curved-sky maps realise exactly the requested band-limited spectra",
  "synfast_spherical returns, for every list of spins, one map per scalar and two per spin field, whose multipoles are the harmonic realisation for the given seed with the given covariance ordering (upper triangle, row-major), multiplied by each field's beam and band-limited at the smallest of lmax, the spectra and the pixelisation; the same seed gives the same maps on every pixelisation and axis orientation, and wrong numbers of spectra, short beams, negative spins and partial skies are refused.",
  ["inputs", "configurations", "histories"], "all spin lists, spectra, beams, seeds, lmax, pixelisations",
  "Tests check the mean power of one realisation.",
  ["pymaster/utils.py"], [("realisation", "synfast_spherical")], ["synfast_spherical"])

p("S02", "Simulated flat-sky maps depend on seed and spectra as documented",
  "synfast_flat returns maps that for a given non-negative seed are reproducible, scale linearly with the square root of the spectra and with each field's beam mode by mode, carry no power where the spectra vanish, respect perfect correlations between fields given by the spectra in row-major upper-triangular order, and have the right spin (E and B modes per the spectra); wrong shapes and negative spins are refused.",
  ["inputs", "configurations"], "all spin lists, spectra, beams, seeds, patch shapes",
  "Tests check the mean power of one realisation.",
  ["src/flatsky_utils.c", "pymaster/utils.py"], [("realisation", "fs_synfast"), ("wrapper", "synfast_flat")], ["synfast_flat"])

p("P01", "Default parameters are read at call time, validated, and never leak",
  "get_default_params reports the last accepted setting of each default; a rejected value changes nothing; each default affects exactly the operations that leave the corresponding argument unset, from the next call on, and never objects already built. Both transform backends give the same results wherever both apply.",
  ["histories"], "all sequences of setting defaults and building or using objects",
  "Tests set each parameter once and read it back.",
  ["pymaster/utils.py", "pymaster/field.py"], [("parameters", "NmtParams, set_*_default, get_default_params")],
  ["get_default_params", "NmtField", "map2alm"], [("defaults", "four current values", "nmt_params")])

p("H01", "Harmonic transforms are the documented sums with Jacobi iterations",
  "alm2map evaluates the spin-s harmonic expansion at every pixel centre; map2alm with no iteration is the quadrature-weighted sum of the map times the conjugate harmonics over pixels present, and each iteration adds the transform of the residual; the multipoles are ordered by m then l, and E/B and Q/U signs follow the HEALPix convention. This holds for every spin, lmax, HEALPix resolution and (partial or full) rectangular grid.",
  ["inputs", "configurations"], "all maps, multipoles, spins, lmax, pixelisations, n_iter",
  "Tests compare round trips at one resolution, which hide consistent errors.",
  ["pymaster/utils.py"], [("transforms", "map2alm, alm2map"), ("padding and weights", "_SHTInfo")], ["map2alm", "alm2map"])

p("P02", "The pseudo-inverse is the Moore-Penrose inverse above the eigenvalue cut",
  "moore_penrose_pinvh returns the Hermitian matrix that inverts the input on the span of the eigenvectors whose eigenvalue is at least the given fraction of the largest one and vanishes on the rest; with no positive tolerance it is the ordinary inverse.",
  ["inputs"], "all symmetric and complex Hermitian matrices and tolerances",
  "Tests use one singular matrix.",
  ["pymaster/utils.py"], [("pseudo-inverse", "moore_penrose_pinvh")], ["moore_penrose_pinvh"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
