"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
PK='src/onepower/pk.py'; HOD='src/onepower/hod.py'; IA='src/onepower/ia.py'; BNL='src/onepower/bnl.py'
HMI='src/onepower/hmi.py'; ADD='src/onepower/add.py'; POI='src/onepower/utils/poisson.py'; CS='cosmosis_modules/onepower_interface.py'
SHAPE="The tests evaluate a few default configurations and check types, shapes and the absence of NaN only; no value, and no other grid or configuration, is compared with anything."

prop('C01','Every total spectrum is the sum of its one-halo and two-halo parts',
 "For the galaxy-galaxy, galaxy-matter, matter-intrinsic, intrinsic-intrinsic and galaxy-intrinsic spectra, in every non-linear mode and with or without the response option, the reported total power equals the reported one-halo power plus the reported two-halo power at every bin, redshift and wavenumber. The same holds for matter-matter except that the HMCode mode returns the documented smoothed transition of the two parts and the response option returns the supplied non-linear power with both parts zero.",
 ['inputs','configurations'],'all grids of any size, all ingredient values, all non-linear modes and feedback/pointmass/response switches',SHAPE,
 [PK],[('assembly of one-/two-halo parts',PK+': _power_spectrum_mm, power_spectrum_mm, power_spectrum_gg, _gm, _mi, _ii, _gi'),('HMCode transition smoothing',PK+': transition_smoothing')],
 ['power_spectrum_<xy>.pk_1h/.pk_2h/.pk_tot'])
prop('C02','Matter power is the halo-model integral over mass in every non-linear mode',
 "The matter one-halo power is the Simpson integral over halo mass of the squared matter profile times the mass function per unit mass, times the one-halo large-scale damping, and the two-halo power is the linear power times the squared bias-weighted matter integral (with the missing-mass correction) times the two-halo damping. With non-linear halo bias the two-halo term has no damping and instead adds the linear power times the four-part beta_nl integral (missing mass in the lowest-mass halo); in HMCode mode it is the linear power times the sigma8-dependent damping and no integral. The matter profile entering the one-halo term is chosen by the feedback option as documented (plain, HMCode feedback, or feedback with the stellar fraction of the occupation model).",
 ['inputs','configurations'],'all mass/k/z grids, all ingredient arrays, all combinations of non-linear mode and feedback ingredients',SHAPE,
 [PK],[('one-halo integral',PK+': compute_1h_term'),('two-halo matter integral',PK+': compute_Im_term, Im_term, compute_A_term'),('beta_nl integrals',PK+': I_NL, prepare_I12/I21/I22_integrand, trapezoidal_integrator'),('mode selection',PK+': _power_spectrum_mm')],
 ['power_spectrum_mm'])
prop('C03','Galaxy clustering and galaxy-matter power are the stated halo-model integrals',
 "The galaxy-galaxy one-halo power is twice the central-satellite integral plus the satellite-satellite integral weighted by the Poisson parameter, with no central-central term, and its two-halo power is the linear power times the square of the summed central and satellite bias-weighted integrals; the galaxy-matter one- and two-halo powers are the corresponding galaxy-times-matter integrals. Central and satellite profiles are fraction times occupation over number density, centrals point-like and satellites following the satellite profile. The reported galaxy bias is the square root of the summed two-halo factors (all divided through by matter where one leg is matter).",
 ['inputs','configurations'],'all numbers of galaxy bins, redshifts, wavenumbers and masses; all occupation arrays; all modes',SHAPE,
 [PK],[('galaxy profiles',PK+': central_galaxy_profile, satellite_galaxy_profile'),('galaxy two-halo integrals',PK+': compute_Ig_term, Ic_term, Is_term'),('spectra',PK+': power_spectrum_gg, power_spectrum_gm')],
 ['power_spectrum_gg','power_spectrum_gm'])
prop('C04','Intrinsic-alignment spectra have the stated integrals, amplitudes and signs',
 "The matter-intrinsic spectrum is negative the matter-times-alignment integrals, the intrinsic-intrinsic and galaxy-intrinsic spectra carry the positive sign, the galaxy-intrinsic ones correlate central galaxies with central and satellite alignment, one-halo alignment power comes from satellites only, and each is damped by the alignment damping factors (beta_nl mode has no two-halo damping and adds the beta_nl integrals). Central alignment profiles scale as central fraction times C1=5e-14 times the two-halo amplitude over growth times mass, satellites as satellite fraction times occupation times radial alignment profile over number density, both times (mean halo mass/pivot)^slope only when slope and pivot are both set, and the two-halo alignment integrals put the missing mass in the lowest-mass halo. In the Fortuna mode the two-halo terms are instead the effective power times the central fraction (squared for intrinsic-intrinsic) or the central galaxy integral, times the linear-alignment amplitude.",
 ['inputs','configurations'],'all grids, amplitudes, occupation arrays, modes and alignment options',SHAPE,
 [PK],[('alignment profiles',PK+': compute_central_galaxy_alignment_profile, compute_satellite_galaxy_alignment_profile'),('alignment integrals',PK+': Ic_align_term, Is_align_term'),('amplitudes',PK+': C1, alignment_amplitude_2h, alignment_amplitude_2h_II'),('spectra',PK+': power_spectrum_mi, power_spectrum_ii, power_spectrum_gi')],
 ['power_spectrum_mi','power_spectrum_ii','power_spectrum_gi'])
prop('C05','Response option rescales every spectrum by non-linear over halo-model matter',
 "With the response option on, every one-halo, two-halo and total galaxy and alignment spectrum equals the corresponding spectrum without the option times the supplied non-linear matter power divided by the halo-model matter-matter total, and the matter-matter total is the supplied non-linear power itself. The galaxy bias is not rescaled, and requesting several spectra in any order gives the same results (rescaling is applied once).",
 ['inputs','configurations','histories'],'all ingredient arrays, modes and orders in which spectra are requested',SHAPE,
 [PK],[('response rescaling',PK+': power_spectrum_gg, _gm, _mi, _ii, _gi (in-place *=)'),('matter response',PK+': power_spectrum_mm, _pk_nl')],
 ['power_spectrum_<xy>'])
prop('C06','Missing-mass correction makes the two-halo matter term linear on large scales',
 "Whatever the mass range and mass function, the matter two-halo factor equals exactly one at any scale where the halo profiles are normalised to one, so that there the two-halo matter power is the linear power times its damping; the low-mass correction is one minus the bias-weighted mass integral and a warning, not a change of value, is given when it is negative. The halo profiles used are normalised to one at the largest scale for every redshift and mass. A beta_nl that is identically zero reproduces the undamped linear-bias result, and the beta_nl contribution of two fields does not depend on their order when beta_nl is symmetric.",
 ['inputs'],'all mass ranges, mass functions, biases, densities, profiles and symmetric beta_nl arrays',"Tests never compare the low-k limit or the mass sum rule with anything; both must hold for every mass range and mass function.",
 [PK,HMI],[('missing mass',PK+': compute_A_term, A_term, Im_term'),('profile normalisation',HMI+': u_dm, u_sat'),('beta_nl integral',PK+': I_NL')],
 ['A_term','Im_term','u_dm','u_sat','power_spectrum_mm'])
prop('C07','Damping factors stay between zero and one, are monotonic and can be switched off',
 "Every one-halo damping factor lies in [0,1], vanishes towards large scales and increases with wavenumber, and every two-halo damping factor lies in [0,1] (HMCode: for sigma8 giving amplitude at most one) and decreases with wavenumber. Setting a truncation scale to none makes the factor exactly one, and the truncation scale of the one-halo and alignment factors is the wavenumber where they reach their documented value (1/2, 1-1/e, 1/e). The smoothed HMCode total lies at or above each of its non-negative parts.",
 ['inputs'],'all positive wavenumbers, truncation scales, sigma8 values and effective slopes',SHAPE,
 [PK],[('damping factors',PK+': one_halo_truncation, two_halo_truncation, one_halo_truncation_ia, two_halo_truncation_ia, one_halo_truncation_mead2020, two_halo_truncation_mead2020'),('transition',PK+': transition_smoothing')],
 ['*_truncation*','transition_smoothing'])
prop('C08','Occupations are bounded and central plus satellite equals total everywhere',
 "In every analytic occupation model the mean central occupation is non-negative and at most one, or its documented completeness amplitude, before assembly bias, the satellite occupation is non-negative and, for a positive slope, vanishes below its documented mass cutoff; the conditional model's occupations are non-negative. With an assembly-bias amplitude of at least -1 all stay non-negative, and in every model centrals plus satellites are the total occupation. Number densities, mean halo masses, linear biases, stellar fractions and observable functions of centrals and satellites add up to those of all galaxies, and the central and satellite fractions add up to one inside the tabulated redshift range and are zero outside it.",
 ['inputs','configurations'],'all occupation models and parameters, masses, redshift grids, bins, mass functions',"Tests check shapes of the occupation arrays for default parameters only; bounds and additivity must hold for all parameters and masses.",
 [HOD],[('occupation models',HOD+': Cacciato, Zheng, Zhai, Zehavi, Simple'),('aggregates',HOD+': _mass_integral, _bias_integral, _interpolate, number_density*, f_c, f_s, galaxy_linear_bias*, avg_halo_mass*'),('assembly bias',HOD+': _compute_hod_cen/_sat')],
 ['hod_cen','hod_sat','hod','number_density*','f_c','f_s','galaxy_linear_bias*','stellar_fraction*','obs_func*'])
prop('C09','Occupation statistics are the stated functions and mass integrals, bin by bin',
 "Each analytic occupation model returns its published central and satellite occupation as a function of halo mass with the (possibly bin-dependent) parameters supplied, masses given as log10 pivots, and each galaxy bin depends only on its own parameters and limits. Number density, mean mass and linear bias are the Simpson integrals over mass of occupation times mass function (times mass or bias, bias normalised by the total density), evaluated at the bin's own redshifts with linearly interpolated mass function and bias and linearly interpolated to the requested redshifts.",
 ['inputs','configurations'],'all models, parameters, bins, masses and redshift grids',"Tests use default parameters with one bin and check shapes only.",
 [HOD],[('analytic models',HOD+': Zheng, Zhai, Zehavi, Simple _compute_hod_cen/_compute_hod_sat'),('integrals and interpolation',HOD+': _mass_integral, _mean_mass_integral, _bias_integral, _interpolate, dndlnm_int, halo_bias_int')],
 ['hod_cen','hod_sat','number_density*','avg_halo_mass*','galaxy_linear_bias*'])
prop('C10','Conditional observable functions integrate to occupation and stellar mass',
 "In the conditional-observable model the occupation of each bin is the integral of the conditional function over that bin's observable range, the observable function is its integral over the mass function, and the stellar fraction is the observable-weighted integral divided by halo mass, each for centrals, satellites and their sum. The conditional function of centrals is the documented log-normal about the double power-law relation, that of satellites the documented modified Schechter form with its amplitude from the mass polynomial, both non-negative. Changing the declared h-units of the observable changes only the documented factors of h.",
 ['inputs','configurations'],'all model parameters, bins, observable limits, masses, redshifts and both h-unit options',SHAPE,
 [HOD,PK],[('conditional functions',HOD+': Cacciato.COF_cen, COF_sat, COF, cal_mstar, mor, phi_b'),('integrals',HOD+': Cacciato._compute_hod_*, _compute_stellar_fraction_*, obs_func*'),('units',PK+': obs_func, obs_func_cen, obs_func_sat')],
 ['hod*','stellar_fraction*','obs_func*'])
prop('C11','Updating parameters gives the same results as building a fresh model',
 "After any sequence of parameter updates and reads, every quantity read from a model equals the quantity of a model freshly constructed with the current parameter values. This holds for the power-spectrum model, its ingredients, the alignment and non-linear bias helpers and the upsampling wrapper (for spectra requested after the update); a copy made of a model can be updated without affecting the original.",
 ['histories','configurations'],'all finite sequences of updates, reads and copies',"A test can only try a few update sequences; the guarantee is over all of them, and the existing tests do not compare an updated model with a fresh one.",
 [PK,HMI,IA,BNL,ADD],[('parameter dependency tracking','@parameter/@cached_quantity declarations in '+', '.join([PK,HMI,IA,BNL,ADD])),('branch selection inside cached quantities',PK+': cached quantities reading switches'),('copying',ADD+': power_2')],
 ['any attribute after update()'])
prop('C12','Arrays and dictionaries supplied by the caller are never modified',
 "Constructing models and reading any result leaves every array and dictionary the caller passed in (grids, power spectra, beta_nl, occupation and alignment settings, parameter dictionaries) unchanged, and reading one result never changes the values of another result already read. In particular, results obtained earlier stay valid when further spectra are requested.",
 ['inputs','histories'],'all inputs and all orders of reads',"Frame conditions are quantified over all reads and orders; no test looks at its inputs afterwards.",
 [PK,HOD,IA,BNL,ADD],[('in-place arithmetic on results',PK+': pk_* *=, pk_2h +='),('alignment settings',PK+': alignment_class'),('in-place array edits',IA+', '+BNL+', '+HMI)],
 ['caller-owned arrays and dicts'])
prop('C13','Upsampled and mixed spectra interpolate the models and weight them by fraction',
 "The upsampled spectrum is the model spectrum interpolated linearly in redshift and then linearly in log10 wavenumber to the requested grid, exactly reproducing the model at its own grid points. With two populations, matter-matter is that of the first model, galaxy-matter and matter-intrinsic are weighted by f and 1-f, and galaxy-galaxy, galaxy-intrinsic and intrinsic-intrinsic by f squared and (1-f) squared, where f is the supplied fraction interpolated linearly to the output redshifts; without a fraction the result is the first model alone. Each requested component is mixed separately and a linear combination of components is preserved.",
 ['inputs','configurations'],'all output grids, model grids, fractions, requested spectra and components',"Tests check only types and shapes for one grid.",
 [ADD],[('grid interpolation',ADD+': extrapolate_spectra'),('mixing',ADD+': add_spectra, frac_1, frac_2'),('driver',ADD+': results')],
 ['power_spectrum_<xy> of the upsampled model'])
prop('C14','Non-linear halo bias is symmetric, correctly indexed and emulator-safe',
 "The non-linear halo bias returned at [z,k,M1,M2] is symmetric under exchange of the two masses, is the emulator halo-halo power relative to bias-squared linear power minus one shifted to vanish on large scale, and the emulator is only ever given cosmologies and halo masses inside its supported range (masses from the resolved minimum to 1e14 Msun/h; the requested redshifts, or 0.01 without redshift dependence), with each out-of-range cosmological value replaced by the nearest allowed value and the others untouched. The large- and small-scale windows lie between zero and one and are complementary in direction.",
 ['inputs'],'all mass, redshift and wavenumber grids and cosmologies, including out-of-range ones',"The emulator is not exercised off its default cosmology, and values are not compared.",
 [BNL],[('assembly',BNL+': compute_bnl_darkquest, create_bnl_interpolation_function, bnl'),('cosmology clipping',BNL+': test_cosmo'),('windows',BNL+': low_k_truncation, high_k_truncation')],
 ['bnl','test_cosmo'])
prop('C15','Satellite alignment profile and amplitudes follow the stated geometry',
 "The satellite radial alignment weight equals the amplitude times (r/rvir)^slope outside the core, constant inside the core, and never exceeds the documented ceiling, the angular integrals agree with their closed forms for every supported multipole, and the resulting Fourier profile is non-negative. Alignment amplitudes follow the chosen dependence option (constant, luminosity power law, double power law or halo mass) with log10 pivots and raise an error for inconsistent options. Down- and re-sampling in mass preserves the endpoints of the mass range.",
 ['inputs','configurations'],'all radii, angles, masses, multipoles, slopes and option combinations',SHAPE,
 [IA],[('radial profile',IA+': gamma_r_nfw_profile, nfw_profile_trunc, mass_nfw'),('angular part',IA+': I_x, calculate_f_ell, get_ell'),('options',IA+': AlignmentAmplitudes'),('sampling',IA+': downsample_halo_parameters, upsampled_wkm')],
 ['gamma_r_nfw_profile','calculate_f_ell','alignment_gi','alignment_amplitude_sat','wkm'])
prop('C16','Baryon feedback redistributes matter: bounded gas fraction, mass conserved',
 "The gas fraction lies between zero and the cosmic baryon fraction minus the stellar fraction (when that is non-negative), increases with halo mass, equals half of the reservoir at the pivot mass and reaches it for massive haloes. The feedback matter profile is (dark matter fraction plus gas fraction) times the dark-matter-only profile plus the stellar fraction as a point mass, with the HMCode2020 temperature- and redshift-dependence of pivot mass and stellar fraction, so that with the full baryon reservoir it conserves the halo mass at normalised scales. Non-matter parts of the model are unaffected by feedback.",
 ['inputs'],'all masses, redshifts, AGN temperatures, stellar fractions, pivot masses and cosmologies',SHAPE,
 [PK],[('gas and stars',PK+': fg, fg_fit, fs'),('profiles',PK+': compute_matter_profile_with_feedback, compute_matter_profile_with_feedback_stellar_fraction_from_obs')],
 ['fg','fs','fg_fit','matter_profile_with_feedback'])
prop('C17','Poisson parameter models return the stated mass dependence',
 "The constant model returns its parameter at every halo mass and the power-law model returns parameter times (mass over 10^pivot) to the slope, with an error if pivot or slope is missing. The parameter enters only the satellite-satellite one-halo galaxy power, linearly, and the default value of one leaves that power unweighted.",
 ['inputs','configurations'],'all mass arrays and parameters',"Tests use one mass array and do not check where the parameter enters.",
 [POI,PK],[('models',POI+': constant, power_law'),('use',PK+': poisson_func, power_spectrum_gg')],
 ['poisson_func','power_spectrum_gg'])
prop('C18','Inconsistent configurations and misshapen inputs are rejected, valid accepted',
 "An unknown non-linear mode, feedback ingredient set or model option, HMCode non-linear mode without HMCode ingredients or with the fit ingredients, an external power spectrum whose shape is not redshift by wavenumber, a k grid that is not admissible for dewiggling, and observable units outside the supported list all raise an error instead of producing numbers. Every documented valid combination is accepted, both at construction and on update.",
 ['configurations','inputs'],'all option values and array shapes, at construction and on update',"Tests cover a few invalid values; the rejection must hold for every invalid value and the acceptance for every valid combination.",
 [PK,HMI,HOD,IA,BNL],[('validation',PK+': validate, nonlinear_mode, _pk_lin, _pk_nl, get_Pk_wiggle'),('ingredients',HMI+': parameter setters, validate'),('units',HOD+': Cacciato')],
 ['constructor and update()'])
prop('C19','CosmoSIS module passes parameters and results through unchanged and aligned',
 "The CosmoSIS interface builds the model from exactly the values in its option section and data block, and writes each requested spectrum, grid, bias, occupation and alignment quantity to the section and key named by the options with the redshift and wavenumber axes the values belong to, one entry per galaxy bin in order. Values from one galaxy bin or population never appear under the name of another, and optional inputs not requested are neither required nor written.",
 ['configurations','inputs'],'all option combinations, bin counts and data-block contents',"The interface module has no tests (the framework is not installed).",
 [CS],[('setup and execute',CS+': setup, execute'),('saving',CS+': save_*')],
 ['data block after execute()'])
prop('C20','Ingredients line up with their redshift and HMCode fits are as published',
 "Every ingredient array holds at index i exactly the quantity of the halo model evaluated at the i-th requested redshift, with that redshift's own overdensity, collapse threshold, concentration normalisation and bloating for centrals and for satellites separately. In the HMCode modes the overdensity, collapse threshold, bloating and concentration normalisation are the published functions of the cosmology at that redshift and override the user's values, otherwise the user's values are used. Matter density, neutrino fraction and cosmology are derived from the supplied densities.",
 ['inputs','configurations'],'all redshift vectors, cosmologies and ingredient options',SHAPE,
 [HMI],[('per-redshift models',HMI+': _hmf_cen, _hmf_sat, _hmf_generator'),('HMCode fits',HMI+': dc_Mead, Dv_Mead, f_Mead, K, eta_*, norm_*'),('cosmology',HMI+': cosmo_model, omega_m, growth')],
 ['dndlnm','halo_bias','u_dm','conc_*','delta_c','mdef_params','eta_*','norm_*'])
prop('C21','Supplied linear and non-linear power is used verbatim and mixed as documented',
 "A supplied linear (non-linear) matter power is used unchanged in every spectrum unless dewiggling is requested or implied, and without one the ingredient power is interpolated linearly in wavenumber to the requested grid. The dewiggled power is the linear power minus (1-exp(-(k sigma_v)^2)) times its wiggle part, so it equals the linear power where the wiggle part or the damping vanishes, row by row in redshift, and the effective power of the Fortuna mode is the t_eff mixture of linear and non-linear power, defined only in that mode.",
 ['inputs','configurations'],'all supplied power arrays, grids, slopes and mixing parameters',SHAPE,
 [PK],[('linear power',PK+': _pk_lin, power_spectrum_lin'),('non-linear power',PK+': _pk_nl'),('mixture',PK+': peff'),('dewiggling',PK+': dewiggle_plin, sigmaV, get_Pk_wiggle')],
 ['power_spectrum_lin','peff','dewiggle_plin'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
