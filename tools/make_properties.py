"""Writes /verif/properties.jsonl (the list lives here so that it is easy to edit)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe or [], hook_needed=None))

L = []
A = L.append

A(P("C01", "Stellar-age weights are the mass fractions formed in each age bin",
"For every tabulated star-formation history (including zero, bursty, quenched and rising ones), every ascending grid of SSP ages and every observation time at which a resolvable fraction of the stars formed has ages covered by the grid, the stellar-age weights are finite, non-negative and sum to one. Each weight is the fraction of the stellar mass whose age at the observation time falls in that template's age bin, the mass formed by any time being the trapezoidal integral of the history interpolated linearly in log-time/log-mass, and bins older than the universe get zero. The weights depend only on the shape of the history, not on its normalisation, as long as the rates stay above the star-formation floor.",
["inputs"], "all SFH tables (any length, spacing, shape), ascending SSP age grids and observation times inside, at a knot of, and beyond the table",
"The tests use one age grid, one linear log-mass table and two analytic histories at t_obs=11 or 16 with tolerance 0.01/0.001; they never vary the shape, table length or t_obs and never look at individual small weights.",
["dsps/sed/stellar_age_weights.py", "dsps/utils.py", "dsps/constants.py"],
[("calc_age_weights_from_sfh_table", "dsps/sed/stellar_age_weights.py"), ("_get_lg_age_bin_edges/_get_lgt_birth", "dsps/sed/stellar_age_weights.py"), ("cumulative_mstar_formed", "dsps/utils.py")]))

A(P("C02", "Nothing that happens after the observation changes the galaxy",
"The age weights, metallicity weights, joint SSP weights and composite SED of a galaxy do not change when the tabulated star-formation rates or metallicities at times later than the first table time at or beyond the observation time are replaced by anything else. Appending later times to the table, or truncating them, changes nothing either.",
["histories", "inputs"], "all pairs of tabulated histories that agree up to the observation time, all SSP grids and metallicity models",
"No test compares two histories; every test observes at the last table time, where there is no future to leak.",
["dsps/sed/stellar_age_weights.py", "dsps/sed/metallicity_weights.py", "dsps/sed/ssp_weights.py", "dsps/sed/stellar_sed.py", "dsps/utils.py"],
[("cumulative integral and interpolation at birth times", "dsps/sed/stellar_age_weights.py"), ("metallicity at birth time", "dsps/sed/metallicity_weights.py")]))

A(P("C03", "Lognormal metallicity weights are the MDF integrated over metallicity bins",
"For every galaxy metallicity, positive scatter and ascending grid of SSP metallicities, the metallicity weights are finite, non-negative and sum to one. Each weight is the integral over that template's metallicity bin (interior bins bounded around the grid points, outermost bins extending far beyond the grid) of a triweight kernel centred on the galaxy metallicity with the given scatter, so all weight sits in the bins within three scatters of it. A galaxy far below or above every bin puts all of its weight in the lowest or highest template.",
["inputs"], "all metallicities inside and far outside the grid, scatters from far below the bin width to many bins, ascending metallicity grids of any length",
"The tests check one metallicity inside one uniform grid with scatter 0.1 and only the sum.",
["dsps/sed/metallicity_weights.py", "dsps/utils.py", "dsps/constants.py"],
[("calc_lgmet_weights_from_lognormal_mdf", "dsps/sed/metallicity_weights.py"), ("triweighted_histogram/_get_bin_edges/_fill_empty_weights_singlepoint", "dsps/utils.py")]))

A(P("C04", "Metallicity-history weights use the metallicity at each population's birth",
"For every tabulated metallicity history, the metallicity weight matrix has one column per SSP age, and each column is the lognormal metallicity distribution centred on the tabulated metallicity at the time that population was born (interpolated linearly in log time, clamped to the ends of the table and to the earliest birth time). All columns carry equal total weight and the whole matrix sums to one; a constant history gives in every column the weights of the single-metallicity model.",
["inputs", "histories"], "all metallicity histories, table spacings, scatters, SSP age and metallicity grids and observation times",
"The one test draws a constant history and checks only the total sum.",
["dsps/sed/metallicity_weights.py", "dsps/sed/stellar_age_weights.py"],
[("calc_lgmet_weights_from_lgmet_table", "dsps/sed/metallicity_weights.py"), ("_calc_lgmet_at_ssp_lgage_table", "dsps/sed/metallicity_weights.py")]))

A(P("C05", "Joint SSP weights combine age and metallicity weights exactly",
"For every galaxy, the joint SSP weights returned with either metallicity model are finite, non-negative and sum to one over the (metallicity, age) plane. The joint weight of each cell is proportional to the age weight times the metallicity weight returned alongside it, so the marginal over metallicity reproduces the age weights and, for the single-metallicity model, the marginal over age reproduces the metallicity weights. The age and metallicity weights returned alongside are identical to those of the stand-alone weight calculations for the same inputs.",
["inputs"], "all SFH/metallicity inputs for both metallicity models and all SSP grids, square and non-square",
"The tests check shapes and sums for one galaxy; neither the product structure nor the axis order is checked.",
["dsps/sed/ssp_weights.py"],
[("calc_ssp_weights_sfh_table_lognormal_mdf", "dsps/sed/ssp_weights.py"), ("calc_ssp_weights_sfh_table_met_table", "dsps/sed/ssp_weights.py")]))

A(P("C06", "The composite SED is formed mass times the weighted sum of SSP spectra",
"For every galaxy and SSP library, the rest-frame SED at each wavelength equals the total stellar mass formed by the observation time multiplied by the sum over metallicity and age of the joint SSP weight times the SSP flux, and the weights returned with the SED are those of the stand-alone weight calculation. It is therefore linear in the SSP fluxes, proportional to the star-formation history (above the floor), and independent of how other wavelengths are sampled.",
["inputs"], "all histories, metallicity models, SSP grids, flux cubes (any number of wavelengths) and observation times",
"The tests only assert shapes and that some SED value is positive.",
["dsps/sed/stellar_sed.py", "dsps/sed/ssp_weights.py", "dsps/utils.py"],
[("calc_rest_sed_sfh_table_lognormal_mdf", "dsps/sed/stellar_sed.py"), ("calc_rest_sed_sfh_table_met_table", "dsps/sed/stellar_sed.py")]))

A(P("C07", "The minimum star-formation rate is a floor on the input history",
"Wherever a minimum star-formation rate can be given (stellar-age weights and both composite-SED calculations), the result with that minimum equals the result obtained by raising every tabulated rate below the minimum to the minimum beforehand, and rates above it are untouched. Histories containing zeros (even entirely zero) therefore still give finite weights and SEDs with the default minimum.",
["inputs"], "all histories with any mix of rates above, at and below the floor and any positive floor value",
"No test passes a minimum rate or a history with zeros.",
["dsps/sed/stellar_age_weights.py", "dsps/sed/stellar_sed.py", "dsps/sed/ssp_weights.py"],
[("_calc_logsm_table_from_sfh_table", "dsps/sed/stellar_age_weights.py"), ("sfr_min argument", "dsps/sed/stellar_sed.py")]))

A(P("C08", "Gradients of the stellar population model are finite and correct",
"Automatic differentiation of the age weights, metallicity weights, composite SED (both metallicity models) and burst-mixed age weights with respect to the star-formation history, metallicity, metallicity scatter, observation time and burst parameters gives finite values, also where the history contains zeros or the universe is younger than the oldest templates. At points where the model is smooth these gradients agree with finite differences of the model.",
["inputs"], "all galaxies and all differentiable inputs; smooth points for the finite-difference comparison",
"No test takes a gradient at all, although differentiability is the stated purpose of the package.",
["dsps/sed/stellar_sed.py", "dsps/sed/metallicity_weights.py", "dsps/sed/stellar_age_weights.py", "dsps/sfh/diffburst.py", "dsps/utils.py"],
[("masked kernels written to be NaN-safe under grad", "dsps/utils.py"), ("where-guards on birth times and rates", "dsps/sed/stellar_age_weights.py")]))

A(P("C09", "Rest-frame magnitudes follow the AB definition",
"For every SED and filter, the rest-frame AB flux is the ratio of the filter integrals (transmission over wavelength) of the SED, interpolated onto the filter wavelengths and taken as zero outside its wavelength range, and of the AB reference spectrum of 3631 Jy at 10 pc, and the magnitude is -2.5 log10 of it. A flat spectrum at the AB reference level has magnitude zero in every filter; rescaling the filter changes nothing; rescaling the SED by k shifts the magnitude by -2.5 log10 k; fluxes of summed SEDs add.",
["inputs"], "all positive SEDs on any ascending wavelength grid and all filters, including filters only partly or not at all covered by the SED",
"Two SEDs and six LSST filters are compared to tabulated values at 0.05 mag, and no test covers partial coverage, rescaling or additivity.",
["dsps/photometry/photometry_kernels.py", "dsps/utils.py"],
[("calc_rest_mag/calc_rest_flux", "dsps/photometry/photometry_kernels.py"), ("_rest_flux_ssp/_flux_ab0_at_10pc", "dsps/photometry/photometry_kernels.py")]))

A(P("C10", "Apparent magnitudes are redshifted AB magnitudes plus cosmological dimming",
"For every SED, filter, positive redshift and flat w0-wa cosmology, the apparent magnitude is the AB magnitude of the SED with its wavelengths stretched by (1+z), plus the distance modulus of that cosmology, minus 2.5 log10(1+z). Stretching the filter wavelengths instead of the SED gives the same undimmed magnitude, and at z=0 the undimmed magnitude equals the rest-frame magnitude. The dimming obtained from a tabulated distance modulus agrees with the direct one at the table redshifts and is linear in between.",
["inputs"], "all SEDs, filters, redshifts 0<z<=20 and flat w0-wa cosmologies",
"One cosmology and two SEDs at 0.05 mag; k-correction and dimming terms cannot be told apart at that tolerance and the tabulated dimming is untested.",
["dsps/photometry/photometry_kernels.py", "dsps/cosmology/flat_wcdm.py"],
[("calc_obs_mag", "dsps/photometry/photometry_kernels.py"), ("_cosmological_dimming", "dsps/photometry/photometry_kernels.py")]))

A(P("C11", "Precomputed magnitude tables equal the per-spectrum magnitudes",
"Every entry of the precomputed magnitude tables (apparent magnitudes on a redshift grid, rest-frame magnitudes, and rest-frame magnitudes k-corrected to a redshift) equals the magnitude computed individually for that redshift, metallicity, age and filter, with axes ordered (redshift,) metallicity, age, filter. Adding, removing or reordering spectra, filters or redshifts never changes the other entries.",
["inputs"], "all SSP flux cubes (any numbers of metallicities, ages, wavelengths), filter sets and redshift grids",
"Tests check shapes with three identical filters, so a permuted or mis-broadcast axis would pass.",
["dsps/photometry/photpop.py"],
[("vmapped photometry kernels", "dsps/photometry/photpop.py")]))

A(P("C12", "Filter resampling and effective wavelength preserve the filter",
"Resampling a collection of transmission curves to a common length gives, for each filter independently, evenly spaced wavelengths spanning exactly that filter's own range and the linearly interpolated transmission there, with the requested number of points or by default that of the shortest curve, and leaves the inputs alone. The effective wavelength of a filter is its transmission-weighted mean wavelength divided by (1+z): it lies within the wavelength range of the filter at z=0, does not depend on the filter's normalisation, and scales with the wavelength unit.",
["inputs"], "all collections of transmission curves of different lengths and ranges, all requested lengths, all redshifts",
"Resampling has no test; effective wavelength is tested for one top-hat and one Gaussian.",
["dsps/photometry/utils.py", "dsps/dust/utils.py"],
[("interpolate_filter_trans_curves", "dsps/photometry/utils.py"), ("get_filter_effective_wavelength", "dsps/dust/utils.py")]))

A(P("C13", "Cosmological distances follow the flat w0-wa Friedmann equation",
"For every flat w0-wa cosmology and redshift 0<=z<=20, the comoving distance equals c/H0 times the integral of 1/E(z) to within 0.08 percent (0.25 percent if w0>-0.3 or w0+wa>-0.05, 0.002 percent at z<=1), is zero at z=0 and strictly increasing. Luminosity distance, angular-diameter distance and distance modulus are exactly (1+z) times, 1/(1+z) times, and 5 log10(d_L/10pc) of the corresponding distance; all distances scale as 1/h; the vectorised forms equal the scalar ones. The named cosmologies are those published (Planck 2015: Om0=0.3075, h=0.6774; WMAP5: 0.277, 0.702; FSPS: 0.27, 0.72; all with a cosmological constant), the first being the default.",
["inputs"], "all Om0 in [0.05,1], w0 in [-3,0.5], wa in [-3,2] with w0+wa<=0.5, h in [0.3,1.5], 0<=z<=20",
"Two named cosmologies plus ten random w0/wa draws with z<=10 are compared to astropy at 0.1-0.5 percent; exact relations, other Om0/h and scaling are untested.",
["dsps/cosmology/flat_wcdm.py"],
[("comoving_distance_to_z and derived distances", "dsps/cosmology/flat_wcdm.py"), ("_Ez/_rho_de_z", "dsps/cosmology/flat_wcdm.py")]))

A(P("C14", "Cosmic ages and lookback times are consistent and accurate",
"For every flat w0-wa cosmology and redshift 0<=z<=100, the lookback time equals the integral of dz/((1+z)H) to within 0.02 percent, is zero at z=0 and strictly increasing, and the age at z is within 0.002 Gyr (scaled by 0.7/h) of the true age of the universe, positive and strictly decreasing. Age plus lookback time equals the present age exactly, and all times scale as 1/h.",
["inputs"], "all cosmologies as in C13, 0<=z<=100",
"Compared to astropy at 0.5-1 percent for z<=10 and two LCDM cosmologies only.",
["dsps/cosmology/flat_wcdm.py", "dsps/cosmology/defaults.py"],
[("lookback_to_z/age_at_z0/age_at_z", "dsps/cosmology/flat_wcdm.py"), ("_hubble_time", "dsps/cosmology/flat_wcdm.py")]))

A(P("C15", "Critical density, matter fraction, volume and dynamical time follow H(z)",
"For every flat w0-wa cosmology and redshift, the critical density equals its present value 277.54 h^2 Msun/kpc^3 times E(z)^2, and the differential comoving volume per steradian equals c/H(z) times the comoving distance squared and so integrates to the comoving volume. The virial crossing time equals 2^1.5/(H(z) sqrt(Delta_vir)) with the Bryan-Norman overdensity of the matter fraction at z. Each accepts scalar as well as array redshifts and gives the same values.",
["inputs"], "all cosmologies as in C13, scalar and array redshifts 0<=z<=20",
"Only monotonicity and one value to +-1 Gyr (dynamical time), one cosmology at 1 percent (volume), nothing for the critical density.",
["dsps/cosmology/flat_wcdm.py"],
[("rho_crit", "dsps/cosmology/flat_wcdm.py"), ("virial_dynamical_time/_delta_vir", "dsps/cosmology/flat_wcdm.py"), ("differential_comoving_volume", "dsps/cosmology/flat_wcdm.py")]))

A(P("C16", "Reddening curves follow the published laws and are never negative",
"At every wavelength and parameter value the Calzetti (2000) and Leitherer (2002) reddening curves equal the published polynomials in inverse wavelength, and the Noll (2009) and Salim (2018) curves equal the Leitherer/Calzetti base curve (switching at 0.15 micron) modified by a power law normalised at 0.55 micron and a Drude bump of the given centre, width and amplitude - bump before the power law for Noll, after it for Salim - clipped at zero. The smooth triweight approximation has a logarithmic slope rolling between its two limits as a triweight cumulative and passes exactly through its tie point. Each attenuation curve is the reddening curve times Av/4.05, clipped at zero, hence proportional to Av, zero at Av=0 and never negative.",
["inputs"], "all wavelengths 0.01-30 micron, slopes, bump amplitudes/centres/widths, Av>=0",
"The tests compare to tables at three parameter combinations in a limited wavelength range.",
["dsps/dust/att_curves.py"],
[("calzetti00/leitherer02/noll09/sbl18 curves", "dsps/dust/att_curves.py"), ("_drude_bump/power_law_vband_norm", "dsps/dust/att_curves.py")]))

A(P("C17", "Dust transmission is a fraction between the floor and one",
"For every reddening curve, Av>=0 and unobscured floor in [0,1], the transmitted fraction equals floor + (1-floor)*10^(-0.4*A) with A = k*Av/4.05 clipped at zero, so it lies in [floor,1], equals one without dust, never increases with Av or with k, and never decreases with the floor. With zero floor, the transmissions of two dust screens multiply when their Av add.",
["inputs"], "all reddening values (including negative), all Av>=0, all floors in [0,1]",
"Tested for Calzetti only at Av=1 with four floors, or floor 0 with five Av.",
["dsps/dust/att_curves.py"],
[("_frac_transmission_from_k_lambda", "dsps/dust/att_curves.py"), ("_att_curve_from_k_lambda", "dsps/dust/att_curves.py")]))

A(P("C18", "Blackbody densities obey Planck's law at all wavelengths and temperatures",
"For every temperature and frequency or wavelength the frequency and wavelength densities equal the Planck function in Lsun/Hz/sr/m^2 and Lsun/AA/sr/m^2, going smoothly to zero deep in the Wien tail and to the Rayleigh-Jeans law at long wavelengths, and nu*B_nu equals lambda*B_lambda. They increase with temperature at fixed wavelength, integrate to sigma T^4/pi, and have finite derivatives with respect to wavelength and temperature everywhere.",
["inputs"], "temperatures 1-1e7 K, wavelengths 1 AA - 1 m (including the deep Wien tail and the Rayleigh-Jeans regime)",
"Six temperatures at wavelengths from 10 micron to 5 mm with allclose default absolute tolerance, which is far above the values themselves.",
["dsps/dust/blackbody.py"],
[("blackbody_freq_density/blackbody_wave_density", "dsps/dust/blackbody.py")]))

A(P("C19", "Burst-mixed age weights are the right mixture of burst and smooth populations",
"For every smooth age distribution and burst, the bursty age weights equal (1-f) times the smooth weights plus f times the burst's weights with f=10^lgfburst, are non-negative, and sum to one whenever the smooth weights do and the burst overlaps the age grid. The burst's weights are a triweight bump in log age, normalised over the grid, centred on the peak age and exactly zero at ages beyond the maximum age and symmetrically below the minimum; when no grid age falls inside the bump they are all zero rather than undefined. Passing unbounded parameters gives the same as passing the bounded parameters they map to.",
["inputs"], "all burst parameters (bounded and unbounded, and direct values outside the default bounds), smooth distributions and age grids",
"Ten random draws on one or two grids checking mainly finiteness and the sum.",
["dsps/sfh/diffburst.py", "dsps/utils.py"],
[("calc_bursty_age_weights(_from_u_params)", "dsps/sfh/diffburst.py"), ("_pureburst_age_weights_from_params/_zero_safe_normalize", "dsps/sfh/diffburst.py")]))

A(P("C20", "Burst parameter bounding is an order-preserving bijection onto the bounds",
"Every unbounded burst parameter vector maps to a burst fraction 10^-8 to 10^-1, a peak age in [10^5,10^8] yr and a maximum age at least 1 dex older than the peak and at most 10^9 yr; each bounded value increases with its own unbounded parameter. Mapping to unbounded parameters and back, in either order, returns the starting values for every vector not numerically saturated at a bound, and extreme unbounded values saturate at the bounds without becoming NaN. The default burst has fraction 10^-3, peak age 10^5.5 yr and maximum age 10^7 yr.",
["inputs"], "all unbounded parameter vectors (including extreme values) and all bounded vectors inside the allowed region, up to its corners",
"Ten random vectors with |u|<10 tested in one direction; bounds themselves never asserted.",
["dsps/sfh/diffburst.py", "dsps/utils.py"],
[("_get_params_from_u_params/_get_u_params_from_params", "dsps/sfh/diffburst.py"), ("_sigmoid/_inverse_sigmoid", "dsps/utils.py")]))

A(P("C21", "Mass-metallicity parameter bounding is a bijection that respects all bounds",
"Every unbounded mass-metallicity parameter vector maps to parameters inside their declared bounds (normalisation -1 to 0.25, turnover mass 10.25 to 10.75, sharpness 0.5 to 2, low- and high-mass slope 0.1 to 1 and 0 to 0.3, evolution -2 to -1, 0 to 0.5, -1.5 to -0.5 and 0 to 0.5), except that the high-mass slope is bounded between its declared minimum and the low-mass slope, which it never exceeds; each bounded value increases with its own unbounded parameter. Mapping to unbounded parameters and back, in either order, returns the starting values for every vector not saturated at a bound, the default parameters map to the default unbounded parameters, and parameters are matched by name, so that passing the wrong kind of parameter tuple is an error. Randomly drawn present-day parameters lie within the declared bounds.",
["inputs"], "all unbounded vectors (including extreme values) and all bounded vectors in the allowed region",
"One hundred uniform draws, one direction, rtol 0.01; bounds are asserted only for the default values.",
["dsps/metallicity/umzr.py", "dsps/utils.py"],
[("get_bounded_mzr_params/get_unbounded_mzr_params", "dsps/metallicity/umzr.py")]))

A(P("C22", "The mass-metallicity relation evolves as specified and never exceeds today's",
"For every parameter vector, stellar mass and cosmic time, the metallicity is the present-day relation (a line in log mass whose slope rolls smoothly from the low-mass to the high-mass value, plus log10 of solar metallicity 0.012) plus a time-dependent reduction that is never positive and that vanishes at cosmic times of 12.5 Gyr and later. With matching parameters the legacy and the current version of the relation agree (the legacy module also carries the fits of Maiolino et al. 2008), and the result at each mass and time does not depend on which others are evaluated with it.",
["inputs"], "all masses 1e2-1e14, times 0.05-20 Gyr and parameter vectors (both versions of the relation)",
"Agreement of the two versions is tested for default parameters only; the reduction's sign and its late-time behaviour are not tested.",
["dsps/metallicity/mzr.py", "dsps/metallicity/umzr.py", "dsps/utils.py"],
[("mzr_model/mzr_model_t0/mzr_evolution_model", "dsps/metallicity/umzr.py"), ("mzr_model", "dsps/metallicity/mzr.py"), ("_sig_slope", "dsps/utils.py")]))

A(P("C23", "Surviving and remnant mass fractions stay physical and calibrated at all ages",
"For each of the four supported IMFs and the default (Chabrier), over ages from 10^3 to 10^10.3 yr the surviving mass fraction lies in (0,1], never increases with age from 10^6 yr on (younger populations have returned less than one percent), and agrees with the tabulated FSPS fraction within 0.02 across the tabulated range; the remnant fraction lies in (0,1), never decreases with age, never exceeds the surviving fraction and agrees with the tabulated FSPS value within 0.05. Both equal the calibrated sigmoid-slope forms at every age and for any parameters, elementwise.",
["inputs"], "all ages 10^3-10^10.3 yr, the four IMF calibrations and perturbed parameters",
"Only the tabulated ages are compared, with the same absolute tolerance, and neither monotonicity nor ages between or outside the table.",
["dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py", "dsps/utils.py"],
[("surviving_mstar/_returned_mass", "dsps/imf/surviving_mstar.py"), ("remnant_mass", "dsps/imf/remnant_mass.py")]))

A(P("C24", "Equivalent widths measure exactly the line above the fitted continuum",
"For every spectrum whose continuum is quadratic in wavelength inside the continuum windows and the line window, the recovered continuum strength and coefficients are those of that quadratic, the line flux is the trapezoidal integral of the line over the line window, and the equivalent width is the line flux divided by the continuum at line centre (zero when there is no line, negative for absorption). Flux outside the line and continuum windows has no influence; scaling the spectrum scales the line flux and leaves the equivalent width; rescaling the wavelength unit scales both consistently; the two entry points agree. For any other spectrum the continuum is the least-squares quadratic through the samples in the continuum windows and the line flux the trapezoidal integral of flux minus continuum over the samples in the line window, window edges included.",
["inputs"], "all spectra, wavelength grids, line and continuum windows and line shapes (emission and absorption)",
"One exponential continuum with one line at 2 percent.",
["dsps/em_lines/equivalent_width.py"],
[("_ew_kernel/_continuum_line_decomp_kern", "dsps/em_lines/equivalent_width.py"), ("_weighted_quadratic_fit", "dsps/em_lines/equivalent_width.py")]))

A(P("C25", "SSP libraries load back exactly as stored, from the location asked for",
"Loading an SSP library file returns every stored array unchanged, with emission lines (if stored) as named wavelengths in file order and luminosities converted from Lsun to erg/s, and with empty emission-line fields otherwise. An explicit file name supersedes the directory and base name, an explicit directory supersedes the environment variable, with neither the environment variable is used, and the base name is ssp_data_fsps_v3.2_lgmet_age.h5 unless another is given; a missing location or file raises an error instead of returning other data.",
["inputs", "configurations", "fault_sequences"], "all SSP array contents/shapes/line names and all combinations of file, directory, base name and environment variable, existing or missing",
"All file-loading tests are skipped or fail offline because they need downloaded data; only the dummy data path runs.",
["dsps/data_loaders/load_ssp_data.py", "dsps/data_loaders/defaults.py", "dsps/constants.py"],
[("load_ssp_templates", "dsps/data_loaders/load_ssp_data.py")]))

A(P("C26", "Transmission-curve loading finds exactly one valid filter and clips noise",
"Loading a transmission curve returns the stored wavelengths unchanged and the stored transmission clipped to [0,1]; a curve that goes below zero or above one by more than the 0.01 tolerance is rejected with an error. A base-name pattern must match exactly one file of the chosen directory (explicit directory, else the filters subdirectory of the environment location), otherwise loading fails, and an explicit file name supersedes pattern and directory. Randomly generated transmission curves are valid curves peaking at the requested centre.",
["inputs", "configurations", "fault_sequences"], "all transmission arrays, directory contents, patterns, and combinations of file/directory/pattern/environment variable",
"All file-based tests need downloaded data and are skipped; only the random curve generator runs, once.",
["dsps/data_loaders/load_filter_data.py", "dsps/data_loaders/defaults.py"],
[("load_transmission_curve/load_random_transmission_curve", "dsps/data_loaders/load_filter_data.py")]))

A(P("C27", "Emission-line tables and subsets keep names, wavelengths and fluxes aligned",
"Reading an emission-line table gives one entry per line with the listed wavelength under a sanitised name that is a valid identifier (spaces and dashes to underscores, dots to p, brackets dropped). Selecting a subset of lines, in any order, returns exactly those names in the requested order with their own wavelengths and luminosities, leaves all other fields and the original data untouched, and selecting from a subset equals selecting directly.",
["inputs", "histories"], "all line tables, SSP data with any number of lines, and all sequences of subset selections and permutations",
"The three tests of this code need downloaded data and fail offline; the remaining one only re-reads the packaged table.",
["dsps/data_loaders/load_emline_info.py", "dsps/data/emlines_info.dat"],
[("read_emlines_info_fsps/get_subset_emline_data", "dsps/data_loaders/load_emline_info.py")]))

A(P("C28", "SSP data retrieved from FSPS survive being written to and loaded from disk",
"Data retrieved from any FSPS installation hold log10 of its metallicities, its ages in log10 Gyr, its wavelengths, and spectra and line luminosities stacked in metallicity order, with every emission line named after the reference line of the same wavelength, and user options passed through to FSPS. Writing them with the provided script and loading the file returns the same library, with line luminosities converted to erg/s, both for FSPS versions with and without emission lines.",
["inputs", "programs"], "all FSPS outputs (simulated by a stand-in): numbers of metallicities, ages, wavelengths and lines, line orders, options, with and without line support",
"FSPS is not installed, so neither the retrieval function nor the script is ever run by a test.",
["dsps/data_loaders/retrieve_fsps_data.py", "scripts/write_fsps_data_to_disk.py", "dsps/data_loaders/load_ssp_data.py"],
[("retrieve_ssp_data_from_fsps/_get_emline_wave_namedtuple", "dsps/data_loaders/retrieve_fsps_data.py"), ("write_fsps_data_to_disk", "scripts/write_fsps_data_to_disk.py")]))

A(P("C29", "Integrals and stellar mass formed are exact trapezoidal integrals",
"For every table of at least two points, the cumulative and total trapezoidal integrals equal the exact trapezoid sums, start at zero, agree at the last point, are linear in the integrand and exact for piecewise-linear functions, and splitting or refining a piecewise-linear table changes nothing. The cumulative stellar mass formed at each time is that integral in Msun (SFR in Msun/yr, time in Gyr), starting from the earliest birth time 0.001 Gyr with a negligible rate, and is strictly increasing for positive rates.",
["inputs"], "all ascending tables (any length >=2, any spacing) and integrands of any sign and magnitude; for the mass formed, all non-negative SFHs",
"Ten uniform random tables of length 100 at 1e-4; the mass formed is only checked to be increasing.",
["dsps/utils.py", "dsps/constants.py"],
[("cumtrapz/trapz/cumulative_mstar_formed", "dsps/utils.py")]))

A(P("C30", "Power-law draws stay in bounds and follow the stated density",
"For all bounds 0<a<b and non-zero indices g (positive or negative), the power-law density is positive, proportional to x^(g-1) and integrates to one between a and b. Random draws lie within [a,b], are reproducible for the same key, are drawn independently per element, and are distributed according to that density.",
["inputs"], "all 0<a<b, g!=0 of either sign, all random keys",
"One batch with g in [1,4] checked for bounds; the distribution and negative indices are never tested.",
["dsps/utils.py"],
[("powerlaw_pdf/powerlaw_rvs", "dsps/utils.py")]))

A(P("C31", "Triweight kernels form a proper probability distribution",
"The triweight cumulative kernel rises monotonically from exactly zero three widths below its centre to exactly one three widths above, its derivative is the triweight density, which is non-negative, symmetric and zero outside that range, and both depend only on the scaled distance from the centre. The triweight histogram of a point over ascending bins is non-negative, adds up to the kernel mass between the outermost edges, adds when bins are merged, and its normalised form sums to one with points far outside all bins assigned to the nearest outermost bin.",
["inputs"], "all points, centres, positive widths, ascending bin edges (uniform or not)",
"Shapes and two out-of-range points are tested; normalisation only for one range of widths.",
["dsps/utils.py"],
[("_tw_cuml_kern/triweight_gaussian/triweighted_histogram/_get_triweights_singlepoint", "dsps/utils.py")]))

A(P("C32", "Results depend only on arguments: no hidden state, mutation or precision drift",
"Calling the package's functions in any order and any number of times gives, for the same arguments, identical results and never modifies the arguments. The results are double precision and do not depend on which submodule of the package was imported first, on whether numbers are passed as python floats, numpy or jax values and arrays as numpy or jax arrays, on whether whole numbers are passed as floats or as integers, or on what was computed earlier with other shapes.",
["histories", "configurations"], "all interleavings of calls with differing arguments and shapes, all import orders, all array types of the inputs",
"Each test calls one function once in one process; precision and import order are never asserted although release 0.4.5 fixed exactly such a bug.",
["dsps/__init__.py", "dsps/sed/__init__.py", "dsps/sed/stellar_sed.py", "dsps/cosmology/flat_wcdm.py", "dsps/utils.py"],
[("jax_enable_x64 switched on at import", "dsps/sed/__init__.py"), ("pure jitted functions", "dsps/utils.py")]))

A(P("C33", "Batched, compiled and plain evaluation give the same galaxy",
"Vectorising any of the weight, SED, burst, dust, magnitude or metallicity calculations over a population of galaxies gives for every galaxy the same result as computing it alone, whatever the batch size and the other members. Running with compilation disabled gives the same values as compiled, and elementwise functions give the same value for a point alone as inside an array of any shape.",
["inputs", "configurations"], "all populations of galaxies and batch sizes; compiled and uncompiled execution",
"No test vectorises over galaxies (only over redshift or filters) or disables compilation.",
["dsps/sed/stellar_sed.py", "dsps/sed/ssp_weights.py", "dsps/sfh/diffburst.py", "dsps/dust/att_curves.py", "dsps/utils.py"],
[("functions written as vmappable kernels", "dsps/sed/stellar_sed.py")]))

A(P("C34", "The mass-metallicity comparison figure shows and labels the right models",
"For every pair of parameter vectors the comparison figure contains, for each plotted epoch, a solid curve of the first model and a dashed curve of the second in the same colour, whose points are the mass-metallicity relation at that epoch, together with the packaged measurements converted to log10 Z with the solar value 0.012. The legend attaches the first label to the solid style and the second to the dashed one, and the figure is written to the requested file and returned.",
["inputs"], "all pairs of mass-metallicity parameter vectors, labels and file names",
"The one test checks that a file appears.",
["dsps/metallicity/diagnostics/plot_mzr.py"],
[("make_mzr_comparison_plot", "dsps/metallicity/diagnostics/plot_mzr.py")]))

A(P("C35", "Simulated SSP data are always a valid SSP library",
"For every requested number of emission lines (including none) the simulated SSP data have consistent shapes, ascending metallicity, age and wavelength grids, finite positive spectra following the packaged power laws, and exactly that many distinctly named lines with ascending wavelengths and finite positive luminosities. The simulated data can be fed to the SED and photometry calculations, and the simulated filter curves are finite, lie in [0,1] and have ordered centres from u to y.",
["inputs", "configurations"], "all line counts and random states",
"Three line counts in one random state; names and grid order are not checked.",
["dsps/data_loaders/retrieve_fake_fsps_data.py"],
[("load_fake_ssp_data/load_fake_filter_transmission_curves", "dsps/data_loaders/retrieve_fake_fsps_data.py")]))

A(P("C36", "Sigmoid and weight-product helpers are exact",
"The sigmoid helper runs monotonically between its two asymptotes, equals their mean at its centre, and its inverse undoes it for all heights, slopes (either sign) and centres away from saturation; the sloped variants pass exactly through their tie point with the limiting slopes. Two- and three-factor weight matrices contain for every galaxy exactly the products of that galaxy's own factors, sum to one when every factor does, and galaxies do not mix.",
["inputs"], "all sigmoid parameters with either orientation, all populations of weight vectors of different lengths",
"One parameter set for the inverse; weight matrices checked for shape only.",
["dsps/utils.py"],
[("_sigmoid/_inverse_sigmoid/_sig_slope/_tw_sig_slope", "dsps/utils.py"), ("_get_weight_matrices_2d/_get_weight_matrices_3d", "dsps/utils.py")]))

A(P("C37", "Gradients of photometry, dust, cosmology and metallicity models are correct",
"Automatic differentiation of magnitudes with respect to spectrum, filter, redshift and cosmological parameters, of dust curves and transmissions with respect to all their parameters, of distances and ages with respect to redshift and cosmology, of the mass-metallicity relation and its parameter bounding, and of the surviving and remnant mass fractions gives finite values for valid inputs. Where the model is smooth the gradients agree with finite differences.",
["inputs"], "all valid inputs of these models; smooth points for the finite-difference comparison",
"No test takes a gradient.",
["dsps/photometry/photometry_kernels.py", "dsps/dust/att_curves.py", "dsps/cosmology/flat_wcdm.py", "dsps/metallicity/umzr.py", "dsps/imf/surviving_mstar.py"],
[("jax-differentiable kernels", "dsps/photometry/photometry_kernels.py")]))

A(P("C38", "Photometry of a composite population is the sum of its templates",
"For every galaxy, SSP library, filter set, redshift and cosmology, the flux (10^(-0.4 mag), rest-frame, apparent or k-corrected) of the composite SED through a filter equals the stellar mass formed times the sum over metallicity and age of the joint SSP weight times the flux from the precomputed table of template magnitudes, so the two documented routes - synthesise then photometer, or photometer the templates then weight - give the same magnitudes. Populations with a burst mixed in have the correspondingly mixed fluxes.",
["inputs"], "all galaxies, SSP libraries (including templates without flux in some bands), filters, redshifts and cosmologies",
"No test compares the two routes; each part is tested alone, mostly for shape and finiteness.",
["dsps/photometry/photpop.py", "dsps/sed/stellar_sed.py", "dsps/photometry/photometry_kernels.py"],
[("precompute_ssp_* tables and calc_rest_sed_*", "dsps/photometry/photpop.py")]))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(L), "properties")
