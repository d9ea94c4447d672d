"""Single source of the property list: properties.jsonl and MANIFEST.json are
generated from it by tools/mk.py so they stay in step."""

P = "src/pystrata/"


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    return dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={
            "files": [P + f for f in files],
            "state": state or [],
            "mechanism": [{"name": n, "where": P + w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
        technique=technique, note=note,
    )


PROPS = [
    prop(
        "C01", "Layered wave propagation solves the 1-D shear-wave equation",
        "For any horizontally layered damped profile over an infinite half-space, the acceleration transfer function "
        "between any two locations (any depth in any layer; outcrop, within or incoming-only wave field) equals the exact "
        "frequency-domain solution of the one-dimensional shear-wave equation with continuous displacement and shear stress "
        "at interfaces and a stress-free surface. Each layer's complex shear modulus is G*(sqrt(1-4D^2) + 2iD) with its small-strain "
        "shear modulus (density times velocity squared) and minimum damping ratio D.",
        ["inputs"],
        "all profiles (1-12 layers, arbitrary velocity contrasts/inversions, damping 0-49%), all frequencies, all pairs of locations and wave fields",
        "tests compare a handful of fixed profiles against stored DEEPSOIL/pysra outputs; nothing varies layering, location depth, wave field or damping",
        ["propagation.py", "site.py"],
        [("up/down-going wave recursion", "propagation.py: LinearElasticCalculator._calc_waves"),
         ("wave field at a location", "propagation.py: LinearElasticCalculator.wave_at_location"),
         ("complex modulus", "site.py: Layer.comp_shear_mod")],
        ["LinearElasticCalculator.calc_accel_tf"],
        "generated profiles vs independent state-vector (displacement/stress propagator) reference solution",
        "Differential oracle written independently in terms of displacement and stress (Haskell propagator), not of wave amplitudes. Assumes double precision and bounded attenuation so that the tolerance is meaningful.",
    ),
    prop(
        "C02", "Transfer functions form a consistent algebra over locations",
        "For one computed profile response, the transfer function from a location to itself is one, reversing a pair inverts it, and "
        "chaining through any intermediate location gives the direct transfer function, for every calculator that propagates waves. At the free surface the within "
        "and outcrop fields coincide, an incoming-only field is half the outcrop field at every depth, and as frequency tends to zero every within/outcrop "
        "transfer function tends to one.",
        ["inputs"],
        "all profiles, locations, wave fields, frequency vectors including zero frequency, and the linear, equivalent-linear and frequency-dependent calculators",
        "tests evaluate single pairs of locations on fixed profiles; relations between several location pairs are never checked",
        ["propagation.py", "motion.py"],
        [("transfer function as ratio of wave fields", "propagation.py: LinearElasticCalculator.calc_accel_tf"),
         ("zero-frequency handling", "propagation.py: _calc_waves_*")],
        ["calc_accel_tf", "wave_at_location"],
        "metamorphic relations between transfer functions on generated profiles and calculators",
        "Pure metamorphic relations, no model of the code; holds to a relative tolerance scaled by the amplitudes involved.",
    ),
    prop(
        "C03", "Linear response is invariant to subdivision, units and insertion of copies",
        "Subdividing any layer into sub-layers of the same material (by hand or with the library's automatic discretization) never changes the linear response at a physical depth. "
        "Automatic discretization keeps total depth, order and properties of the layers, makes every subdivided layer no thicker than the requested fraction of the shortest wavelength, and leaves linear layers whole unless asked otherwise. "
        "Scaling all densities by a constant leaves the acceleration transfer function unchanged, and scaling thicknesses and velocities (or velocities and frequencies) together leaves it unchanged.",
        ["inputs", "configurations"],
        "all profiles, subdivision patterns, discretization settings, scale factors and pairs of locations",
        "auto_discretize is tested on one profile by counting layers; no test compares responses across equivalent profiles",
        ["site.py", "propagation.py"],
        [("automatic discretization", "site.py: Profile.auto_discretize"),
         ("wave recursion", "propagation.py: LinearElasticCalculator._calc_waves"),
         ("depth lookup", "site.py: Profile.lookup_depth")],
        ["Profile.auto_discretize", "calc_accel_tf at equal depths"],
        "metamorphic testing over equivalent profile representations",
        "Metamorphic; compares code with itself on inputs that are physically identical, so it decides consistency, while C01 decides absolute correctness.",
    ),
    prop(
        "C04", "Strain and stress transfer functions are the derivatives of motion",
        "The shear-strain transfer function at any within-profile location equals the depth derivative of the displacement implied by the acceleration transfer function (acceleration in g), whatever the input wave field. "
        "Undamped and damped stress transfer functions equal the strain transfer function times the layer's real and complex shear modulus respectively; strain is zero at the free surface and at zero frequency, and damped stress is continuous across interfaces. "
        "Stress at depth equals the inertia of the soil column above it.",
        ["inputs"],
        "all profiles, output depths, input locations and wave fields, damped/undamped",
        "tests only check that a maximum strain is close to a stored value for fixed profiles",
        ["propagation.py", "site.py"],
        [("strain transfer function", "propagation.py: LinearElasticCalculator.calc_strain_tf"),
         ("stress transfer function", "propagation.py: LinearElasticCalculator.calc_stress_tf")],
        ["calc_strain_tf", "calc_stress_tf", "calc_accel_tf"],
        "generated profiles vs independent stress/displacement propagator, plus equilibrium and continuity relations",
        "Differential against the independent propagator solution; equilibrium checked through the same reference.",
    ),
    prop(
        "C05", "Results do not depend on the optional numba acceleration",
        "Every calculator produces the same results, to rounding, whether or not the optional numba package is installed, and the library is importable and usable without it.",
        ["inputs", "configurations"],
        "all profiles, motions, calculators and locations, with and without numba",
        "the suite only ever runs with numba installed, so one of the two implementations of each kernel is never compared on whole calculations",
        ["propagation.py"],
        [("duplicate kernels and dispatch", "propagation.py: _calc_waves_numba/_calc_waves_python and *_dispatch")],
        ["calc_accel_tf", "calc_strain_tf", "QuarterWaveLenCalculator", "EquivalentLinearCalculator"],
        "differential testing of two copies of the package in one process, one imported with numba blocked",
        "Differential: both copies see the same generated case. A bug present in both implementations is left to C01/C04/C09.",
    ),
    prop(
        "C06", "Equivalent-linear analysis ends in a strain-compatible state",
        "When an equivalent-linear analysis stops before its iteration limit, its last iteration changed every layer's modulus and damping by no more than the tolerance (in percent), so properties and response are mutually compatible. "
        "Final properties are the curves at the effective strain (strain ratio times peak strain), and reported peak strains are the peaks of the strain transfer function of the final iteration applied to the motion. "
        "Layers without nonlinear curves keep their initial properties, so for linear profiles the analysis equals the linear elastic one. "
        "Strains beyond the strain limit are never used to evaluate the curves, and exceeding it in two successive iterations without converging raises an error. "
        "Continuing an analysis without resetting the layers gives the same result as not having stopped.",
        ["inputs"],
        "all profiles with arbitrary nonlinear curves (including modulus-only and damping-only), motions, amplitudes, strain ratios, tolerances, iteration and strain limits",
        "tests run a few profiles with published curves and compare with stored results; convergence itself is never examined",
        ["propagation.py", "site.py"],
        [("iteration and convergence test", "propagation.py: EquivalentLinearCalculator.__call__"),
         ("relative error between iterations", "site.py: IterativeValue.relative_error"),
         ("strain-compatible update", "site.py: Layer.strain setter")],
        ["layer strain/shear_mod/damping/strain_max after a run"],
        "generated nonlinear profiles and motions; fixed-point validity oracle re-evaluated through public API",
        "Validity predicate over the final state (self-consistency), recomputed from public transfer functions and curves; not a model of the iteration path.",
    ),
    prop(
        "C07", "Site response results do not depend on analysis history",
        "Running an analysis gives the same results whatever calculators, motions or profiles were analysed before with the same calculator, profile and motion objects. "
        "Copying a profile preserves its initial (small-strain) layering and properties, even after a nonlinear analysis, the copy and the original never influence each other, and neither does a discretized profile influence the one it came from.",
        ["histories"],
        "all sequences of analyses (linear, equivalent-linear, frequency-dependent, quarter-wavelength), copies and discretizations over shared profiles, motions and calculator objects",
        "each test builds fresh objects; reuse after a nonlinear run, copies of analysed profiles and interleavings are not tested",
        ["propagation.py", "site.py", "motion.py"],
        [("reset of iterated layer state", "propagation.py: AbstractCalculator.__call__, site.py: Layer.reset"),
         ("profile and layer copy", "site.py: Profile.copy, Layer.copy"),
         ("cached smoother and cached motion peaks", "propagation.py: FrequencyDependentEqlCalculator._calc_strain, motion.py: Motion.pgv")],
        ["transfer functions and layer state after arbitrary histories vs fresh objects"],
        "model-based history generation: every step is compared with the same analysis on freshly built objects",
        "Stateful/metamorphic; the reference for each step is the same analysis on fresh objects.",
        [{"name": "Layer._shear_mod/_damping/_strain", "meaning": "strain-compatible state from the last analysis", "where": P + "site.py"},
         {"name": "FrequencyDependentEqlCalculator._smoother", "meaning": "cached smoothing matrix", "where": P + "propagation.py"}],
    ),
    prop(
        "C08", "Frequency-dependent strains have the stated spectral shape",
        "In a frequency-dependent equivalent-linear analysis, each layer's effective strain at every frequency is non-negative and at most the strain ratio times the layer's peak strain, and has the shape of the method: proportional to the strain Fourier amplitudes (zr15), the running maximum from high to low frequency of the Konno-Ohmachi smoothed amplitudes, scaled to that maximum (ko), or an exponential-power decay exp(-a x) / x^b in frequency over mean frequency, fitted to the normalised amplitudes above the mean frequency and capped at one (ka02). "
        "Modulus and damping at every frequency are the curve values at that frequency's strain; an analysis that stops before its iteration limit changed them by no more than the tolerance in its last iteration, and profiles without nonlinear curves give the linear elastic response.",
        ["inputs", "configurations"],
        "all profiles, motions, methods and bandwidths, strain ratios",
        "tests only check stored results of one profile for each method",
        ["propagation.py", "site.py"],
        [("strain spectrum", "propagation.py: FrequencyDependentEqlCalculator._calc_strain"),
         ("vector-valued layer properties", "site.py: Layer.strain setter")],
        ["layer strain, shear_mod and damping vectors after a run"],
        "generated profiles/motions; validity of the final strain spectrum against an independently written shape",
        "Validity predicate on the state at the last iteration, recomputed from the previous iteration's public transfer functions.",
    ),
    prop(
        "C09", "Quarter-wavelength amplification follows its definition",
        "For any profile and frequency, the quarter-wavelength amplification equals (impedance of the half-space / average impedance to the quarter-wavelength depth) raised to the method's exponent, with time-averaged velocity and depth-averaged density to the depth at which the travel time is a quarter period; the site term additionally includes exp(-pi * kappa * f). "
        "A uniform profile amplifies nothing, scaling all densities changes nothing, and refining layers changes nothing. "
        "Fitting to a target never increases the misfit and keeps whatever was not declared adjustable, including source velocity, densities and minimum damping. Profiles with strong velocity inversions, for which the depth iteration does not converge, may be refused with an error.",
        ["inputs"],
        "all profiles, frequencies, attenuation values, exponent methods and fit options",
        "tests check one published profile and one fit",
        ["propagation.py"],
        [("averaging to quarter-wavelength depth", "propagation.py: QuarterWaveLenCalculator._calc_amp, my_trapz"),
         ("fit", "propagation.py: QuarterWaveLenCalculator.fit")],
        ["crustal_amp", "site_term", "profile after fit"],
        "generated profiles vs exact root of the quarter-wavelength equation, plus metamorphic relations",
        "Reference depth solved by exact piecewise-linear inversion; tolerance covers the documented 1% depth convergence.",
    ),
    prop(
        "C10", "Profile geometry and overburden stay consistent under edits",
        "After any sequence of building, appending, inserting and changing layer thicknesses, every layer's top depth is the sum of the thicknesses above it and its total vertical stress is the weight of the soil above it, including when several layers are identical. "
        "Pore pressure is hydrostatic below the water table and zero above, effective stress is total minus pore pressure at any depth in a layer, and mean stress is (1+2*k0)/3 times vertical stress. Iterating the soil types of a profile gives each soil type used by its layers exactly once.",
        ["histories", "inputs"],
        "all sequences of edits over profiles with distinct or identical layers, any water table depth, any depth within a layer",
        "tests check one three-layer profile built once",
        ["site.py"],
        [("depth and stress bookkeeping", "site.py: Profile.update_layers, append, insert, Layer.thickness setter"),
         ("stress", "site.py: Layer.stress_vert, Layer.stress_mean, Profile.pore_pressure")],
        ["Profile.depth/depth_mid/thickness", "Layer.stress_vert/stress_mean"],
        "model-based edit histories against a list-of-tuples model",
        "Stateful comparison with an independent list model after every step.",
        [{"name": "Layer._depth/_stress_vert", "meaning": "cached position and overburden", "where": P + "site.py"}],
    ),
    prop(
        "C11", "Locations resolve to the right layer and depth",
        "Looking up any depth returns the layer that contains it (the lower layer at an interface, the half-space below the last interface) and the offset from that layer's top; looking up an index, positive or negative, returns that very layer at its top, also when layers are identical. "
        "Locations and output locations keep the requested wave field, whether given by name or enumeration member.",
        ["inputs"],
        "all profiles (including repeated identical layers), all depths including interfaces, all indices and wave fields",
        "tests look up a couple of depths in one profile of distinct layers",
        ["site.py", "output.py"],
        [("depth lookup", "site.py: Profile.lookup_depth"), ("location", "site.py: Profile.location, output.py: OutputLocation")],
        ["Profile.location", "Profile.lookup_depth", "OutputLocation"],
        "generated profiles and depths vs cumulative-sum reference",
        "Exact reference model.",
    ),
    prop(
        "C12", "Travel-time averages and site attenuation equal their definitions",
        "For any profile without prior analysis, the time-averaged velocity to a depth, and Vs30 in particular, equals depth divided by the vertical shear-wave travel time to it, treating the half-space as infinitely thick. "
        "Site attenuation equals the sum over layers of 2 * minimum damping * thickness / velocity; both are unchanged by subdividing layers. Vs30, slowness and site attenuation are small-strain quantities that do not change with the strains of an analysis. "
        "The simplified Rayleigh velocity of a uniform profile is proportional to the layer velocity and unchanged by scaling all thicknesses.",
        ["inputs"],
        "all profiles, including profiles shallower than 30 m, and all depths",
        "tests check one profile deeper than 30 m",
        ["site.py"],
        [("averages", "site.py: Profile.time_average_vel, Profile.vs30"), ("attenuation", "site.py: Profile.site_attenuation"),
         ("Rayleigh velocity", "site.py: Profile.simplified_rayliegh_vel")],
        ["Profile.vs30", "Profile.time_average_vel", "Profile.site_attenuation", "Profile.simplified_rayliegh_vel"],
        "generated profiles vs direct summation reference and metamorphic relations",
        "Independent reference by direct summation / independent re-derivation of Urzua et al. (2017).",
    ),
    prop(
        "C13", "Nonlinear curves interpolate log-linearly and stay within limits",
        "A nonlinear curve evaluated at any strain (scalar, array, or one strain per column of a frequency-dependent curve) is piecewise linear in the logarithm of strain through its points, constant beyond its first and last points, and clipped to its limits (modulus reduction 0.001 to 1, damping 0 to 0.49 unless others are given). "
        "Changing the strains or values of a curve takes effect immediately, and published curves are returned as tabulated for the requested model and parameter.",
        ["inputs", "histories"],
        "all increasing strain grids, values, limits, query strains including zero and values far outside the grid, and re-assignments",
        "tests query a few points of one curve",
        ["site.py"],
        [("interpolation", "site.py: NonlinearCurve.__call__, _update"), ("published database", "site.py: NonlinearCurve.from_published, SoilType.from_published, data/published_curves.toml")],
        ["NonlinearCurve.__call__", "SoilType.from_published"],
        "generated curves vs independent interpolation reference; all published models enumerated",
        "Exact reference to rounding.",
    ),
    prop(
        "C14", "Empirical soil models reproduce their published equations",
        "For any admissible index properties and stress, each empirical soil model (Darendeli, Menq, two-parameter modified hyperbolic, Wang and Stokoe, Alemu et al., Rollins et al., Kishida) gives the modulus-reduction and damping curves of its implemented equations with the documented units. "
        "Modulus reduction lies in (0, 1] and decreases with strain, damping never falls below the small-strain damping, and a specified minimum damping shifts or replaces only the small-strain part.",
        ["inputs"],
        "all index properties, stresses, strain grids, soil groups and parameter levels",
        "tests check stored curves for single parameter sets per model",
        ["site.py"],
        [("modified hyperbolic form", "site.py: ModifiedHyperbolicSoilType, DarendeliSoilType, MenqSoilType, RollinsEtAlSoilType"),
         ("two-parameter models", "site.py: TwoParamModifiedHyperbolicSoilType, WangSoilType, AlemuEtAlSoilType"), ("organic soils", "site.py: KishidaSoilType")],
        ["SoilType.mod_reduc.values", "SoilType.damping.values", "SoilType.damping_min", "SoilType.unit_wt"],
        "generated parameters vs independently written equations and physical-bound relations",
        "The reference equations were transcribed from the sources cited in the docstrings as implemented at the pinned commit; coefficients could not be re-read from the papers offline.",
    ),
    prop(
        "C15", "Layer properties follow from strain, curves and minimum damping",
        "At any strain, a layer's shear modulus is its initial modulus times the modulus-reduction curve, its damping is the damping curve shifted so that its small-strain value is the layer's minimum damping, and shear velocity, stress and travel time derive from them; layers without a curve are unaffected by strain. "
        "Changing the initial velocity or minimum damping, or resetting, restores small-strain properties. "
        "The complex modulus always has real and imaginary parts consistent with the selected damping formulation, and damping is capped at 49%. The arrays of a profile hold its layers' current values in order.",
        ["inputs", "histories"],
        "all curves, strains (scalar and vector), minimum damping overrides, and sequences of strain updates, resets and property changes",
        "tests set a single strain on one layer",
        ["site.py"],
        [("strain update", "site.py: Layer.strain setter, Layer._compute_damping"), ("reset", "site.py: Layer.reset, damping_min/initial_shear_vel setters"),
         ("complex modulus", "site.py: Layer.comp_shear_mod")],
        ["Layer.shear_mod/damping/shear_vel/comp_shear_mod/adjusted_damping_curve/stress_shear_eff"],
        "model-based sequences of layer operations vs closed-form reference",
        "Exact reference to rounding.",
    ),
    prop(
        "C16", "Time-series motions keep their spectrum and intensity measures consistent",
        "For any acceleration record and Fourier length, inverting the Fourier spectrum returns the record followed by zeros, the spectrum has one amplitude per reported frequency with spacing 1/(length*time step), and its energy equals that of the record. "
        "Peak acceleration, peak velocity (spectral integration of acceleration, cm/s), Arias intensity and cumulative absolute velocity equal their definitions, and applying a transfer function is linear in the transfer function. "
        "Scaling the record scales PGA, PGV, CAV linearly and Arias intensity quadratically.",
        ["inputs"],
        "all record lengths (odd, even, power of two or not), time steps, amplitudes, Fourier lengths and transfer functions",
        "tests use a few records of power-of-two padded length and compare one PGA/PGV/CAV",
        ["motion.py"],
        [("Fourier spectrum", "motion.py: TimeSeriesMotion._calc_fourier_spectrum, calc_time_series"),
         ("intensity measures", "motion.py: calc_pga, calc_pgv, calc_arias_intensity, calc_cav")],
        ["TimeSeriesMotion.freqs/fourier_amps/calc_time_series/pga/pgv/arias_intensity/cav/times"],
        "round trip, Parseval and direct-DFT reference on generated records",
        "Reference uses an explicit DFT sum rather than the library FFT call.",
    ),
    prop(
        "C17", "Response spectra equal the oscillator response",
        "Pseudo-spectral accelerations of a time-series motion equal the peak of the record filtered by the single-degree-of-freedom transfer function fn^2/(fn^2 - f^2 + 2i*D*fn*f), evaluated after any transfer function supplied, one value per requested oscillator frequency in the order requested. "
        "They scale linearly with the motion, tend to PGA for very stiff oscillators, and agree with direct time-domain integration of the oscillator equation for quiet-padded records.",
        ["inputs"],
        "all records, oscillator frequencies, damping ratios and transfer functions",
        "tests compare a single record and damping with stored values",
        ["motion.py"],
        [("oscillator transfer function", "motion.py: TimeSeriesMotion._calc_sdof_tf, calc_osc_accels")],
        ["TimeSeriesMotion.calc_osc_accels"],
        "generated records vs independent exact piecewise-linear time-domain oscillator integration and direct DFT formula",
        "Differential against two independent references.",
    ),
    prop(
        "C18", "Random-vibration-theory motions work in every calculator and scale consistently",
        "Random-vibration-theory motions (user-specified spectrum, response-spectrum compatible, point source) can drive every calculator exactly like time-series motions, giving PGA in g and PGV in cm/s and strain-compatible results that depend only on Fourier amplitudes and duration. "
        "Scaling the Fourier amplitudes scales peaks linearly, transfer functions of linear profiles do not depend on the motion, and response-spectrum-compatible motions reproduce their target spectrum approximately.",
        ["inputs", "configurations"],
        "all frequency grids, spectra, durations, magnitudes/distances, peak calculators, calculators and profiles",
        "tests only construct one or two RVT motions; the RVT equivalent-linear path is exercised only by notebooks, several of which fail",
        ["motion.py", "propagation.py"],
        [("peak from random vibration theory", "motion.py: RvtMotion, CompatibleRvtMotion, SourceTheoryRvtMotion"),
         ("strain estimate from PGV", "propagation.py: EquivalentLinearCalculator._estimate_strains")],
        ["pga/pgv", "EquivalentLinearCalculator with RVT motions", "calc_osc_accels"],
        "generated RVT motions; metamorphic scaling and spectral-moment reference",
        "Relies on pyRVT (a dependency) for the peak factor; the integration of pystrata with it is what is decided.",
    ),
    prop(
        "C19", "Record loaders read back what the file states",
        "Loading an AT2 or SMC file returns every acceleration value in order times the scale factor, the stated time step and the description, for any number of values, values per line and header/comment text; an uncorrected SMC file is refused.",
        ["inputs"],
        "all records and well-formed file layouts",
        "tests load two bundled files and check a few values",
        ["motion.py", "tools.py"],
        [("AT2 reader", "motion.py: TimeSeriesMotion.load_at2_file"), ("SMC reader", "motion.py: TimeSeriesMotion.load_smc_file, tools.py: parse_fixed_width")],
        ["TimeSeriesMotion.load_at2_file", "TimeSeriesMotion.load_smc_file"],
        "write/read round trip with an independent writer in a scratch folder",
        "Round trip through an independent writer.",
    ),
    prop(
        "C20", "Output containers record every result in order without loss",
        "After any sequence of calculations and resets, an output holds exactly one named column per calculation since the last reset, in order, each holding exactly the result of that calculation, padded with missing values only where results have different lengths. "
        "Iterating yields each name with its own reference and values; default names number the results; resetting clears results and computed references but keeps references given by the user; a collection applies every call and reset to all of its outputs.",
        ["histories"],
        "all sequences of calculations with varying profiles (numbers of layers) and record lengths, names, and resets, over all output types",
        "tests append one or two results of equal length",
        ["output.py"],
        [("accumulation with padding", "output.py: append_arrays, Output._add_values/_add_refs"), ("naming and iteration", "output.py: Output.__call__, iter_results"),
         ("collections", "output.py: OutputCollection")],
        ["Output.values/refs/names/iter_results/reset", "OutputCollection"],
        "model-based histories of calculations/resets against a list model",
        "Stateful comparison with a list of independently computed single results.",
        [{"name": "Output._values/_refs/_names", "meaning": "accumulated results", "where": P + "output.py"}],
    ),
    prop(
        "C21", "Each output reports the quantity it names",
        "For any profile, motion and location, each output equals its definition computed from the calculator's transfer functions and layer state: acceleration, strain (optionally percent), stress (optionally damped or normalized by effective stress) and Arias-intensity time series with their matching times; Fourier amplitude and response spectra; transfer functions and spectral ratios between two locations. "
        "Profile outputs report, at their depths, maximum strain, damping, modulus reduction, initial and strain-compatible velocity, cyclic stress ratio (0.65 * peak stress / effective vertical stress) and peak acceleration.",
        ["inputs", "configurations"],
        "all output types, options, profiles, calculators, motions and locations",
        "tests check shapes or stored values for one configuration of some outputs",
        ["output.py"],
        [("location outputs", "output.py: TimeSeriesOutput family, FourierAmplitudeSpectrumOutput, ResponseSpectrumOutput"),
         ("ratio outputs", "output.py: AccelTransferFunctionOutput, ResponseSpectrumRatioOutput"), ("profile outputs", "output.py: ProfileBasedOutput family")],
        ["Output.values", "Output.refs"],
        "generated configurations vs definitions recomputed from public calculator API",
        "Reference recomputed from public transfer functions, motions and layer state.",
    ),
    prop(
        "C22", "Statistics and tables summarise the recorded results",
        "For two or more results, statistics of an output are the median exp(mean(ln x)) and the logarithmic standard deviation over the available (non-missing) results at each reference, and its data frame has one column per name and the reference as index. "
        "For profile outputs, values at a depth are those of the next reference at or below that depth (end values beyond), evaluated for each result on its own depths.",
        ["inputs", "histories"],
        "all numbers and lengths of results, reference depths, and tuple or string names",
        "tests compute statistics of one small set",
        ["output.py"],
        [("statistics", "output.py: Output.calc_stats, ProfileBasedOutput.calc_stats"), ("tables", "output.py: Output.to_dataframe, ProfileBasedOutput.to_dataframe")],
        ["calc_stats", "to_dataframe"],
        "generated result sets vs per-reference reference computation",
        "Independent per-depth loop as reference.",
    ),
    prop(
        "C23", "Logic trees enumerate exactly the admissible branches",
        "Iterating a logic tree yields every combination of non-zero-weight alternatives whose requirements all match and whose exclusions do not all match, each distinct combination of values once, in order of first occurrence, with weight equal to the product of its alternatives' weights. "
        "Trees built from dictionaries or JSON (plain or gzip) are identical to trees built directly, lookups by name or value return the matching node or alternative, and Miller-Rice nodes have unit total weight, increasing fractions symmetric about one half, each fraction inside the bracket of cumulative weight it stands for.",
        ["inputs"],
        "all trees with arbitrary nodes, values (text, integer, float), requirement and exclusion rules",
        "tests enumerate a few hand-written trees",
        ["logic_tree.py"],
        [("enumeration", "logic_tree.py: LogicTree.__iter__, is_valid"), ("rules", "logic_tree.py: Realization.is_valid"), ("loading", "logic_tree.py: LogicTree.from_json/from_list"),
         ("quadrature", "logic_tree.py: Node.from_miller_rice")],
        ["iteration over LogicTree", "Branch.weight/value/as_dict", "Node.by_value/options"],
        "generated trees vs brute-force enumeration; JSON round trip",
        "Brute-force reference enumerator.",
    ),
    prop(
        "C24", "Thickness and bedrock-depth randomization rebuild valid profiles",
        "A thickness realization has positive layer thicknesses that sum to the seed's depth to the half-space, each layer takes soil type, velocity and minimum damping from the seed layer at its mid-depth, and the half-space keeps all of its properties; interface depths follow the Toro Poisson process with the stated rate. "
        "A bedrock-depth realization places the unchanged half-space at the sampled depth, keeps the seed layers above it, truncates the layer containing it or extends the deepest layer's material.",
        ["inputs"],
        "all seed profiles, model parameters, random states and sampled depths (shallower and deeper than the seed)",
        "tests check one profile and a summary statistic",
        ["variation.py"],
        [("layering", "variation.py: ToroThicknessVariation"), ("half-space depth", "variation.py: HalfSpaceDepthVariation")],
        ["varied profile layers"],
        "generated seeds and random states; structural validity plus statistical test of the layering rate",
        "Structural checks are exact; the rate check is statistical with a six-sigma band.",
    ),
    prop(
        "C25", "Velocity randomization varies only velocity, within bounds",
        "A velocity realization keeps number, thickness, soil type and minimum damping of every layer, the water table, and the half-space velocity unless bedrock variation is requested. "
        "Every varied velocity lies within the truncation bound (limit times scaled logarithmic standard deviation assigned to that layer by the model, by depth or by soil-type name) of its seed velocity, realizations are centred on the seed, and zero standard deviation returns the seed velocities. Neighbouring layers correlate as the model's thickness and depth terms state; the truncated normal generator keeps to its limit and has unit standard deviation for any limit. "
        "Generic site-class models use the tabulated parameters for that class.",
        ["inputs"],
        "all seed profiles, model parameters, site classes, soil-type overrides and random states",
        "tests check statistics of a single fixed profile",
        ["variation.py"],
        [("velocity sampling", "variation.py: VelocityVariation.__call__"), ("standard deviation", "variation.py: ToroVelocityVariation, DepthDependToroVelVariation"), ("generic models", "variation.py: generic_model, usgs_site_class")],
        ["varied profile layers"],
        "generated seeds and random states; bounds, invariance and statistical centring",
        "Bounds and invariances are exact; centring is statistical with a wide band. The correlation of neighbours is checked for layers of one thickness, within what the model's wording leaves open (which depth, which distance) and a 0.27 sampling band.",
    ),
    prop(
        "C26", "Soil-type randomization respects limits, medians and percentiles",
        "A varied soil type keeps strains, unit weight and name, and its modulus-reduction and damping values equal the seed's shifted by the model's standard deviation (Darendeli 2001 or SPID) times one pair of truncated standard normal variates, clipped to the requested limits. "
        "With fixed percentiles the same index always gives the same realization, the median percentile gives the seed, higher percentiles give higher modulus reduction, and iterating profiles cycles through the percentiles in order; invalid modes, percentiles and counts are refused. "
        "Every layer sharing a soil type gets the same realization, and the half-space is varied only on request.",
        ["inputs", "configurations"],
        "all curves, limits, correlations, percentiles, counts and random states",
        "tests check one soil type and a few percentiles",
        ["variation.py"],
        [("soil-type variation", "variation.py: SoilTypeVariation.__call__, vary_profile"), ("models", "variation.py: DarendeliVariation, SpidVariation"), ("percentiles", "variation.py: TruncatedNorm.correlated_at_percentile")],
        ["varied soil types and profiles"],
        "generated curves and random states; back-calculated variates must be a single admissible pair",
        "The pair of variates is recovered from the realization and must explain every unclipped point.",
    ),
    prop(
        "C27", "Randomization never disturbs the seed profile and is reproducible",
        "Whatever combination of thickness, bedrock-depth, velocity and soil-type variation is applied, and whatever analyses are run on the realizations, the seed profile's layers, properties and strain state are unchanged, as are other realizations. "
        "Exactly the requested number of profiles is produced, and resetting the random state reproduces them.",
        ["histories"],
        "all seed profiles, variation combinations, counts, and interleavings of drawing realizations with analysing them",
        "tests never look at the seed profile after randomization or after analysing a realization",
        ["variation.py", "site.py"],
        [("copying of the seed", "variation.py: iter_varied_profiles, HalfSpaceDepthVariation, SoilTypeVariation.vary_profile"), ("copy", "site.py: Layer.copy, Profile.copy")],
        ["seed profile snapshot before/after"],
        "generated interleavings; deep snapshot comparison and replay under the same random state",
        "Snapshot comparison through public attributes.",
    ),
    prop(
        "C28", "Damping adjustment meets the target attenuation",
        "Adjusting a profile to a target site attenuation gives a profile whose site attenuation plus the reported scattering attenuation equals the target, with adjusted damping inversely proportional to velocity and damping of excluded layers (by name pattern, list or predicate) unchanged, wherever excluded layers lie. "
        "Unless done in place the input profile is unchanged; unattainable targets and empty selections raise an error; scattering attenuation is non-negative and vanishes for a uniform profile.",
        ["inputs"],
        "all profiles, targets, exclusion rules and in-place settings",
        "tests use one profile with a contiguous set of layers",
        ["tools.py"],
        [("adjustment", "tools.py: adjust_damping_values"), ("scattering", "tools.py: calc_atten_scatter")],
        ["site_attenuation of the result", "layer damping_min"],
        "generated profiles and exclusion patterns; direct check of the defining equation",
        "Direct check of the postcondition.",
    ),
    prop(
        "C29", "Generic profile tools: stress, crustal-model import and Kamai velocity model",
        "Mean effective stress at layer mid-depths equals (1+2*k0)/3 times (weight of overlying soil minus hydrostatic pore pressure below the water table). "
        "Loading a crustal-model file, plain or gzip, as fetched from the service, returns its depths, velocities, unit weights and water table; simplification keeps the surface, merges exactly the runs of adjacent layers within the tolerance of the first in the run (the bottom one included), and preserves travel time and weight down to every boundary it keeps. "
        "The Kamai et al. velocity model equals its equations for both regions.",
        ["inputs"],
        "all depth grids, unit weights, water tables, crustal-model files, tolerances and regions",
        "tests use one or two small hand-made inputs",
        ["tools.py", "generic.py"],
        [("stress", "tools.py: calc_mean_eff_stress"), ("import", "generic.py: fetch_ncm_profile, load_ncm_profile"), ("simplification", "generic.py: _simplify_profile"), ("velocity model", "generic.py: kea16_profile")],
        ["calc_mean_eff_stress", "load_ncm_profile", "kea16_profile"],
        "generated files with a recording stand-in for the web service; conservation relations and reference integration",
        "The web service is replaced by a stand-in returning generated responses (no network).",
    ),
    prop(
        "C30", "Control-file and tabular imports build the profile they describe",
        "Parsing an nrattle control file returns every stated value whatever comment lines (starting with \"!\") and spacing it contains, and the profile built from it has the stated layers converted to SI units (km to m, density to unit weight, Q or 1/Q to damping) over the stated half-space. "
        "A profile built from a table has one layer per row with those values, and exporting a profile to a table gives one row per layer with cumulative top depths. "
        "Fixed-width parsing returns each field of the given widths in order across line breaks.",
        ["inputs"],
        "all layer counts, values, comment placement, spacing, field widths and line breaks",
        "tests parse one bundled file",
        ["tools.py", "site.py"],
        [("nrattle", "tools.py: read_nrattle_ctl, profile_from_nrattle_ctl"), ("tables", "site.py: Profile.from_dataframe, to_dataframe"), ("fixed width", "tools.py: parse_fixed_width")],
        ["read_nrattle_ctl", "profile_from_nrattle_ctl", "Profile.from_dataframe/to_dataframe", "parse_fixed_width"],
        "write/read round trip with an independent writer",
        "Round trip; the SHAKE input reader is excluded (see DESIGN.md).",
    ),
    prop(
        "C31", "Operations on separate objects do not influence each other",
        "What an operation returns depends only on its arguments, on the objects it acts on and on the random state. After any sequence of other operations on other objects "
        "(creating or editing soil types and published curves, profiles, motions, calculators, outputs, randomizations, damping adjustments, logic trees, reading files), and after the caller has edited what those "
        "returned, it returns what it returns as the first operation of a new process.",
        ["histories", "inputs"],
        "all sequences of operations on separate objects in one process, in particular on nearly identical ones",
        "tests share one process but never compare an operation with itself in a fresh one, and never use two nearly identical inputs in sequence",
        ["site.py", "propagation.py", "motion.py", "output.py", "variation.py", "logic_tree.py", "tools.py", "generic.py"],
        [("soil models", "site.py: SoilType subclasses, from_published"), ("analyses", "propagation.py: calculators"), ("outputs", "output.py: Output"),
         ("randomization", "variation.py: iter_varied_profiles"), ("branches", "logic_tree.py: Node, LogicTree"), ("imports", "tools.py, generic.py")],
        ["return values and public attributes of every operation named"],
        "generated histories in a forked process compared with each operation alone in another fork",
        "Differential over forks; tables held by a class or module are not edited by the histories.",
    ),
]

# Claimed checks: filled as they are built.
NOT_APPLICABLE = {}
