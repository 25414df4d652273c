"""Writes /verif/properties.jsonl and the static part of MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/halomod/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": state} if state else {}),
            observe_at=observe, hook_needed=None)))

p("C01", "A halo model's results depend on its current parameters, not on its history",
  "After any sequence of constructions, updates (single or batched, including model switches, nested parameter dictionaries and invalid values that are rejected), attribute reads and clones, every quantity read from a halo model equals the one read from a freshly constructed model with the same current parameters. A rejected update leaves the model usable and consistent with the parameters it then reports. This holds for dark-matter, tracer, projected, angular, WDM and cross-correlated models.",
  ["histories", "configurations"], "every sequence of parameter updates and reads, for every framework class, model choice and parameter value",
  "Tests update a handful of parameters once and mostly check that the output changed; the number of update/read histories is unbounded and a stale cache only shows for particular read-then-update orders.",
  ["halo_model.py", "integrate_corr.py", "cross_correlations.py", "wdm.py"],
  [("cached quantities re-indexed on parameter updates", "halo_model.py: every @cached_quantity"), ("validation hooks run on update", "halo_model.py: DMHaloModel.validate, TracerHaloModel.validate"), ("sub-models shared by the cross-correlation", "cross_correlations.py: CrossCorrelations")],
  ["public attributes of the framework classes after update()/clone()"],
  [dict(name="cached quantities", meaning="values computed on first read and invalidated on update", where="halo_model.py")])

p("C02", "Models and components are independent of each other and of their inputs",
  "Creating, using, copying, cloning or pickling any model or component never changes another one: class defaults, previously built components, the arrays and dictionaries passed in by the caller, and the original of a copy all keep their values, and the copy gives the same results as the original. Equal inputs give equal results however many other models or components were created in between. Results returned for the same inputs do not depend on the order, memory layout or number type (integer or float) of the arrays in which they are given nor, where these are accepted, on giving lists or single numbers.",
  ["histories", "inputs"], "every interleaving of constructing/evaluating/copying components and models, and every input array",
  "Tests build each component once in isolation; sharing shows only when two live objects interact in a particular order.",
  ["profiles.py", "hod.py", "bias.py", "concentration.py", "halo_model.py", "halo_exclusion.py", "tools.py"],
  [("parameters merged from class defaults into per-instance dictionaries", "hmf Component used by all component classes"), ("profile evaluation broadcasts without touching inputs", "profiles.py: Profile"), ("WDM concentration wraps a CDM relation", "concentration.py: CMRelationWDMRescaled")],
  ["component.params, class _defaults, caller's arrays, returned arrays"])

p("C03", "Density profiles enclose the halo mass and are consistent in real space",
  "For every truncated halo profile and any mass, concentration, redshift, overdensity and valid shape parameters, the density integrated over the halo equals the halo mass, is zero (and for truncated self-convolutions likewise) outside the halo where truncated, and equals the profile's published shape at r/r_s up to that normalisation. The cumulative distribution is the enclosed mass fraction (zero at the centre, one at the edge, monotone), and the normalised form is the density divided by the mass. Halo radius, scale radius and mass conversions are mutually consistent, and scalar, vector and every documented coordinate choice agree elementwise.",
  ["inputs", "configurations"], "every profile class, mass, concentration, redshift, overdensity, radius and shape parameter",
  "Tests compare a few profiles at a few masses and concentrations, mostly NFW.",
  ["profiles.py"], [("shape functions and mass integrals", "profiles.py: _f, _h of each profile"), ("coordinate handling", "profiles.py: Profile._get_r_variables"), ("density and cdf", "profiles.py: Profile.rho, Profile.cdf")],
  ["Profile.rho, cdf, halo_mass_to_radius, halo_radius_to_mass, virial_velocity, populate"])

p("C04", "Fourier transforms and self-convolutions of profiles match the profiles",
  "For every halo profile that offers them, the Fourier transform at any wavenumber, mass and concentration equals the spherical transform of that profile's density (tending to the halo mass, or one when normalised, at small wavenumbers and never exceeding it), and the self-convolution equals the real-space convolution of the density with itself, vanishing beyond twice the halo radius. Closed-form, numerical and table-interpolated evaluations agree with each other. Scalars, vectors and each documented coordinate choice give the same values elementwise, and profiles without a self-convolution say so.",
  ["inputs", "configurations"], "every profile class, wavenumber, separation, mass, concentration and shape parameter",
  "Tests compare a few profiles against the numerical transform for one mass and concentration.",
  ["profiles.py"], [("analytic transforms", "profiles.py: _p of each profile"), ("numerical transform", "profiles.py: Profile._p"), ("self-convolutions", "profiles.py: _l of each profile"), ("coordinates", "profiles.py: Profile._get_k_variables")],
  ["Profile.u, Profile.lam, Profile.has_lam"])

p("C05", "Occupation models follow their published forms and pair algebra",
  "For every HOD and any valid parameters, the mean number of centrals and satellites as functions of halo mass follow the published formulae: never negative, never NaN, zero below a sharp minimum mass, continuous otherwise, and with the total being their sum. With the central condition set, satellites exist only where centrals do (the published satellite number multiplied by the central one), and pair counts (satellite-satellite, central-satellite, total pairs and tracer variance) are those of the stated Poisson or Bernoulli statistics and amount of tracer per galaxy. Unit conversions and derived minimum masses follow the documented definitions.",
  ["inputs", "configurations"], "every HOD class, parameter set and halo mass",
  "Tests evaluate a few HODs at default parameters.",
  ["hod.py"], [("occupation formulae", "hod.py: _central_occupation, _satellite_occupation of each HOD"), ("pair counts", "hod.py: HODPoisson, HODBulk, HODNoCentral"), ("central condition", "hod.py: HOD.satellite_occupation")],
  ["HOD.nc, ns, total_occupation, ss_pairs, cs_pairs, total_pair_function, central_occupation, sigma_central, sigma_satellite"])

p("C06", "Tracer summary statistics are the stated averages over the mass function",
  "For any halo model and HOD, the mean tracer density, central and satellite densities and fractions, effective mass and effective bias are the integrals over halo mass of the (weighted) mass function with the occupation that their definitions state. Central and satellite contributions sum to the total and fractions to one. Adding redundancy (splitting or refining the mass grid, extending the mass range below where tracers live) does not change them beyond integration error.",
  ["inputs", "configurations"], "every cosmology, redshift, mass function, mass range and resolution, HOD and HOD parameters",
  "Tests pin one configuration's scalars at 1 percent.",
  ["halo_model.py"], [("mass-range selection and integration", "halo_model.py: TracerHaloModel._tm, tracer_mmin, mean_tracer_den"), ("effective quantities", "halo_model.py: mass_effective, bias_effective_tracer, central_fraction, satellite_fraction")],
  ["TracerHaloModel.mean_tracer_den, mean_tracer_den_unit, central_fraction, satellite_fraction, mass_effective, bias_effective_tracer"])

p("C07", "Setting the tracer density finds the minimum mass that reproduces it",
  "When a mean tracer density is requested, the resulting model's actual mean density equals the requested one for any attainable density, HOD, redshift and mass function, and the minimum halo mass that results reproduces, when set explicitly in a model without a requested density, the same model. Changing other parameters afterwards keeps the requested density. Requesting it with an HOD or setting that cannot support it, or a density that cannot be reached, is reported as an error rather than silently accepted.",
  ["inputs", "configurations", "histories"], "every attainable density, HOD, cosmology, redshift and update order",
  "Tests use one density with one HOD.",
  ["halo_model.py"], [("minimum-mass search", "halo_model.py: TracerHaloModel._find_m_min"), ("tracer_density parameter", "halo_model.py: TracerHaloModel.tracer_density, hod")],
  ["TracerHaloModel.hod_params, mean_tracer_den, hod.mmin"])

p("C08", "Halo bias follows the published relations and averages to one over matter",
  "Every halo bias model evaluates its published formula at any peak height, spectral index, overdensity, redshift, cosmology and mass, elementwise for arrays of any length, and is positive and increasing at high peak heights. Bias models that are the peak-background split of a mass function are paired with that mass function's parameters consistently. Scale-dependent bias corrections follow their published formulae, and the bias used by a halo model is the chosen model evaluated on that model's own mass function quantities.",
  ["inputs", "configurations"], "every bias class, peak height, redshift, overdensity, cosmology and parameter value",
  "Tests compare a few bias models at one redshift against colossus or against each other.",
  ["bias.py", "halo_model.py"], [("bias formulae", "bias.py: bias() of each class"), ("scale-dependent bias", "bias.py: ScaleDepBias subclasses"), ("framework quantity", "halo_model.py: DMHaloModel.bias, halo_bias")],
  ["Bias.bias(), ScaleDepBias.bias_scale(), DMHaloModel.halo_bias, sd_bias"])

p("C09", "Components taken from colossus agree with colossus",
  "Bias models, concentration relations and profiles made available from colossus return what colossus itself returns for the same cosmology, redshift, mass definition, mass and model parameters, in halomod's units. Every such component is available under its documented name. Results do not depend on which cosmology was used in colossus before, by halomod or by the user.",
  ["inputs", "configurations", "histories"], "every colossus-backed component, cosmology, redshift, mass and preceding use of colossus",
  "Tests cover one or two models at one cosmology and cannot see global-state leakage between cosmologies.",
  ["bias.py", "concentration.py", "profiles.py"], [("colossus wrappers", "bias.py: make_colossus_bias; concentration.py: make_colossus_cm"), ("cosmology conversion", "concentration.py: astropy_to_colossus")],
  ["bias.make_colossus_bias(...).bias(), concentration.make_colossus_cm(...).cm()"])

p("C10", "Concentration-mass relations follow their published forms",
  "Every concentration-mass relation evaluates its published formula at any mass, redshift, mass definition and valid parameters: positive, finite, elementwise for scalars and arrays, decreasing or flat with mass for the power-law relations, and scaling with redshift as published. Samples and parameter presets select the published values and explicitly given parameters always win over presets. The concentration a halo model uses (for halos and for tracers) is the chosen relation evaluated at its own masses, redshift, mass definition and cosmology.",
  ["inputs", "configurations"], "every relation, sample, mass, redshift, cosmology and parameter value",
  "Tests evaluate relations at the default parameters for a few masses.",
  ["concentration.py", "halo_model.py"], [("relations", "concentration.py: cm() of each class"), ("framework quantities", "halo_model.py: halo_concentration, cmz_relation, tracer_concentration")],
  ["CMRelation.cm(), DMHaloModel.cmz_relation, TracerHaloModel.tracer_cmz_relation"])

p("C11", "Halo exclusion counts exactly the halo pairs allowed to exist",
  "For every halo-exclusion model, the excluded two-halo integral equals the double mass integral of the given density-weighted integrand restricted to the pairs of halos its definition allows at each separation, for any mass grid, integrand, halo density, separations, wavenumbers and scale-dependent bias. It never exceeds the unexcluded integral, grows with separation towards it, and modified densities and mass limits follow the definitions. The compiled and interpreted implementations of the same model give the same numbers.",
  ["inputs", "configurations"], "every exclusion model, mass grid, integrand, separation and wavenumber grid",
  "Tests check one fixed grid for a few models.",
  ["halo_exclusion.py", "halo_model.py"], [("double integrals", "halo_exclusion.py: dbl_ints of each class, cumsimps"), ("numba versions", "halo_exclusion.py: DblSphere_, DblEllipsoid_, NgMatched_"), ("2-halo assembly", "halo_model.py: corr_2h_auto_tracer, TwoHaloPower")],
  ["Exclusion.integrate(), density_mod, mask, TracerHaloModel.corr_2h_auto_tracer"])

p("C12", "Matter power spectra are the halo-model integrals",
  "For any cosmology, redshift, mass function, bias, profile and concentration, the one-halo matter power is the mass-function integral of the squared normalised profile transform, the two-halo matter power is the linear (or chosen non-linear) power scaled by the squared bias-weighted matter integral, and the total is their sum. On large scales the two-halo term tends to the matter power and on every scale all terms are finite and, up to numerical precision, non-negative. Each equals the same integral evaluated independently for any mass range and resolution.",
  ["inputs", "configurations"], "every cosmology, redshift, mass function, bias, profile, concentration, wavenumber and mass grid",
  "Tests check positivity or a pinned curve for the default model.",
  ["halo_model.py"], [("matter spectra", "halo_model.py: power_1h_auto_matter, power_2h_auto_matter, power_auto_matter"), ("extended matter mass range", "halo_model.py: DMHaloModel")],
  ["DMHaloModel.power_1h_auto_matter, power_2h_auto_matter, power_auto_matter and their _fn forms"])

p("C13", "Tracer power spectra are the halo-model integrals over the occupation",
  "For any halo model and HOD, the one-halo tracer power is the sum of the satellite-satellite and central-satellite mass integrals of the pair counts with the tracer profile transform, divided by the squared mean tracer density; the two-halo power is the matter power times the squared bias-, occupation- and profile-weighted integral; and the total is their sum. On large scales the two-halo power tends to the squared effective bias times the matter power, and every term is finite and, up to numerical precision, non-negative. All use the tracer profile and tracer concentration, not those of the halos.",
  ["inputs", "configurations"], "every cosmology, redshift, mass function, bias, tracer profile and concentration, HOD and parameters, wavenumber",
  "Tests pin a single default configuration loosely.",
  ["halo_model.py"], [("tracer spectra", "halo_model.py: power_1h_ss_auto_tracer, power_1h_cs_auto_tracer, power_2h_auto_tracer"), ("tracer profile transform", "halo_model.py: tracer_profile_ukm")],
  ["TracerHaloModel.power_*_auto_tracer(_fn)"])

p("C14", "Tracer-matter cross spectra are the halo-model cross integrals",
  "For any halo model and HOD, the one-halo tracer-matter power is the mass integral of occupation, halo mass and the halo and tracer profile transforms over the mean densities, the two-halo power is the matter power times the product of the bias-weighted matter and tracer integrals, and the total is their sum. When the tracer traces the mass itself, the cross power coincides with the matter one; on large scales it tends to the product of the two effective biases times the matter power. Every term is finite and, up to numerical precision, non-negative.",
  ["inputs", "configurations"], "every cosmology, redshift, mass function, bias, profiles, HOD and parameters, wavenumber",
  "Tests only check shape and positivity for defaults.",
  ["halo_model.py"], [("cross spectra", "halo_model.py: power_1h_cross_tracer_matter, power_2h_cross_tracer_matter, power_cross_tracer_matter")],
  ["TracerHaloModel.power_*_cross_tracer_matter(_fn)"])

p("C15", "Correlation functions are the Fourier partners of the power spectra",
  "For any halo model, each one-halo, two-halo and total correlation function of matter, tracers and their cross equals the Fourier transform of the corresponding power (equivalently, for profiles with an analytic self-convolution, the direct pair-count integral), and the total equals the sum of its terms. All correlations vanish at separations much larger than any halo scale, and one-halo correlations are non-negative (up to the constant of one by which each is defined). The function form and the tabulated form of each quantity agree at any separation, inside or outside the table.",
  ["inputs", "configurations"], "every halo model configuration, separation range and resolution",
  "Tests pin one configuration; agreement between power and correlation is not asserted over the model space.",
  ["halo_model.py", "tools.py"], [("correlations", "halo_model.py: corr_* and corr_*_fn"), ("transforms", "tools.py: hankel_transform, power_to_corr_ogata")],
  ["corr_1h_*, corr_2h_*, corr_auto_matter, corr_auto_tracer, corr_cross_tracer_matter"])

p("C16", "Cross-correlations of two tracers reduce to and combine the auto spectra",
  "For any two tracer populations of one cosmology, the one-halo cross power is the mass integral of the cross pair counts of the two occupations (with the stated correlation between them) with both profile transforms over both densities, and the two-halo power is the product of the two tracers' large-scale terms times the matter power; the total is their sum and the correlation its Fourier partner. Exchanging the two tracers changes nothing for a symmetric pair relation, and for two identical, uncorrelated populations the cross terms equal the corresponding auto terms up to the stated self-pair difference. The dependence on the correlation parameters is linear as published.",
  ["inputs", "configurations"], "every pair of tracer models, correlation parameters and cosmologies",
  "Tests only cover one pair of HODs.",
  ["cross_correlations.py"], [("pair relations", "cross_correlations.py: _HODCross subclasses"), ("cross spectra", "cross_correlations.py: CrossCorrelations.power_1h_cross, power_2h_cross, corr_cross")],
  ["CrossCorrelations.power_*_cross, corr_*_cross, cross_hod_model"])

p("C17", "Fourier and Hankel transforms agree with analytic transforms",
  "For any smooth power spectrum, the correlation function obtained by any of the provided transforms equals its analytic Fourier transform at every separation within the tabulated wavenumbers' reach, and the transforms back to power invert it. The transforms are linear in the input, scale with the coordinates as a three-dimensional transform must, and agree with each other. Beyond its ends a table is continued following its last two points: as a power law where it is (and is said to be) positive, linearly in the logarithm of the wavenumber otherwise. The result at one separation does not depend on which other separations are requested or on how they are ordered.",
  ["inputs"], "every power spectrum, wavenumber grid and set of separations",
  "Tests transform one or two fixed functions.",
  ["tools.py"], [("transforms", "tools.py: hankel_transform, power_to_corr, power_to_corr_ogata, power_to_corr_ogata_matrix")],
  ["tools.hankel_transform, tools.power_to_corr*"])

p("C18", "Extended splines and spline integrals behave as their options say",
  "An extended spline reproduces its data, interpolates smoothly between them, and outside them continues exactly as requested (power law fitted to the outer points, constant, zero, or a given function, matched to the data at the boundary when requested) for data of any sign; data outside a stated domain and unknown continuations are refused. Integrals equal the analytic integral of the tabulated function between the given bounds, including bounds at zero or inside the grid, and are additive in the bounds.",
  ["inputs"], "every data set, coordinate, extension kind and integration bound",
  "Tests evaluate a couple of functions.",
  ["tools.py"], [("extended spline", "tools.py: ExtendedSpline"), ("integral", "tools.py: spline_integral")],
  ["tools.ExtendedSpline, tools.spline_integral"])

p("C19", "Projected correlations are line-of-sight integrals of the 3D correlation",
  "For any correlation function and projected separations, the projected correlation equals twice the line-of-sight integral of the 3D correlation up to the stated limit, and the projected model applies it to its own tracer correlation with its stated line-of-sight limit. Analytic power laws are reproduced, the projection is linear in the correlation, and the result at one separation does not depend on the others. Integer, unordered or single separations are accepted equally where a float array would be.",
  ["inputs", "configurations"], "every correlation function, separations and limit",
  "Tests compare one model against a stored curve.",
  ["integrate_corr.py"], [("projection", "integrate_corr.py: projected_corr_gal"), ("model", "integrate_corr.py: ProjectedCF")],
  ["integrate_corr.projected_corr_gal, ProjectedCF.projected_corr_gal, ProjectedCF.rlim"])

p("C20", "Angular correlations are the stated projections of the 3D correlation",
  "For any correlation function and radial selections, the angular correlation equals the double integral of the 3D correlation over both lines of sight weighted by the two normalised selections, with comoving distances in the same units as the correlation; the blackbox and model forms agree. Selections given as redshift or distance distributions describing the same sample give the same result, the selection's normalisation does not matter where documented, and the result is linear in the correlation. The analytic small-angle limit for power laws is reproduced.",
  ["inputs", "configurations"], "every correlation function, selection, angle, redshift range and cosmology",
  "Tests compare one model against a blackbox form with one selection.",
  ["integrate_corr.py"], [("angular integral", "integrate_corr.py: angular_corr_gal"), ("model", "integrate_corr.py: AngularCF"), ("selections", "integrate_corr.py: flat_z_dist, dxdz")],
  ["integrate_corr.angular_corr_gal, AngularCF.angular_corr_gal, AngularCF.xvec, theta"])

p("C21", "Mock galaxy populations follow the occupation and the profile",
  "Populating any halo catalogue places, for each halo and statistically over realisations, centrals at the halo centre with the occupation's mean and satellites with its mean and Poisson statistics, distributed around the centre as the tracer profile's enclosed mass and isotropically, within the halo radius and with finite positions. Every galaxy is attributed to an existing halo and the returned arrays (positions, halo indices, central/satellite type) agree with each other in length and order. It works for any number of halos including none, one and halos without galaxies, and does not alter the catalogue.",
  ["inputs", "configurations"], "every halo catalogue, HOD, profile and random seed",
  "Tests draw one small catalogue and look at shapes.",
  ["functional.py", "tools.py", "profiles.py"], [("populate", "tools.py: populate"), ("profile draws", "profiles.py: Profile.populate")],
  ["tools.populate, Profile.populate"])

p("C22", "Warm dark matter models are consistent mixtures of halos and smooth matter",
  "For any particle mass and cosmology, the WDM halo model's fraction of matter in halos is the mass-function integral over the mean density, its power spectra combine halo and smooth components with those fractions as published, and the total tends to the linear matter power on large scales. WDM concentrations, of halos and of tracers, equal the CDM relation multiplied by the published suppression with the half-mode mass of the model, whose mass-dependent part tends to one at high mass or large particle mass. The model follows later changes of the particle mass. As the particle mass grows the WDM model's quantities tend to those of the cold model.",
  ["inputs", "configurations"], "every particle mass, cosmology, redshift and CDM relation",
  "Tests check a single particle mass for shape.",
  ["wdm.py", "concentration.py"], [("WDM framework", "wdm.py: HaloModelWDM"), ("concentration", "concentration.py: CMRelationWDMRescaled")],
  ["HaloModelWDM.f_halos, power_*; CMRelationWDMRescaled.cm"])

p("C23", "Every model is reachable by name and every interface gives the same numbers",
  "Any component given by its name, class, alias or instance-level parameters resolves to the same model with the same results, unknown names, non-models and invalid parameter values are refused with an error, and every documented model of each kind can be chosen in a halo model. The functional iterator visits exactly the requested parameter combinations and yields the same results as separate models, and the command-line run with a configuration file or overrides writes the same numbers, for every array quantity, as the Python interface, and a configuration which reproduces them. Parameter lists and the effective parameters reported by a model reproduce that model when used to build another.",
  ["inputs", "configurations"], "every model name, parameter combination and configuration file",
  "Tests run the command line once and resolve a few names.",
  ["functional.py", "_cli.py", "halo_model.py", "profiles.py", "hod.py", "bias.py", "concentration.py", "halo_exclusion.py"],
  [("resolution", "halo_model.py: validate/get_mdl use in parameters"), ("iteration", "functional.py: get_halomodel_obj / get_hod..."), ("command line", "_cli.py")],
  ["get_mdl, framework parameters, functional iterator, CLI output files"])

p("C24", "Halo-centre spectra follow the chosen matter spectrum and its filters",
  "The power spectrum of halo centres equals, for each documented choice, the linear, non-linear, or filtered spectrum with the documented filter and scale, and the matching correlation is its Fourier partner. The halo-halo power and correlation for any two masses are the product of their biases with that spectrum (scale-dependent bias, when chosen, enters the two-halo terms). Every two-halo quantity of the model uses that choice consistently.",
  ["inputs", "configurations"], "every choice of spectrum, cosmology, redshift and pair of masses",
  "Tests only check that spectra options run.",
  ["halo_model.py"], [("halo-centre spectra", "halo_model.py: _power_halo_centres_fn, corr_halo..."), ("halo-halo", "halo_model.py: power_hh")],
  ["DMHaloModel.power_hh, hc_spectrum, corr_linear_mm, corr_halofit_mm"])

p("C25", "Predictions do not depend on output grids or resolution choices",
  "Evaluating a halo model on a different output grid (number, range or spacing of separations, wavenumbers or angles) gives the same values at common points, and function forms evaluated at any points agree with the tabulated forms. Refining the internal wavenumber, mass or separation tables changes results only within integration error. Output arrays always match the requested grids in length, order and limits.",
  ["inputs", "configurations"], "every output grid and internal resolution, for every output quantity",
  "Tests use one grid per class.",
  ["halo_model.py", "integrate_corr.py", "cross_correlations.py"], [("grids", "halo_model.py: r, k_hm, dr_table, _r_table, hm_logk_min, hm_dlog10k"), ("theta/rp grids", "integrate_corr.py: theta, rp")],
  ["r, k_hm, rp, theta and every output tabulated on them"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
