"""Single source for properties.jsonl and MANIFEST.json: `python -m hv.props`."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, level="exploration", observe=None):
    assert len(title) <= 80, title
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=None)),
        check=dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
                   technique=technique, level=level, level_note=note)))


prop("P01", "Generated phase-space events are physical and reproducible",
     "Every event the Monte-Carlo phase-space generator produces conserves four-momentum, has every particle on its mass "
     "shell with the requested mass, and carries a finite non-negative RAMBO weight multiplied exactly by the supplied "
     "squared matrix element. This holds for any number of bodies, any energy scale, single or batched generation, single or "
     "double precision, and after energy or masses are reassigned (where events equal those of a freshly built generator). "
     "The same seed gives the same events, and directions are isotropic.",
     ["inputs", "histories"], "all 2..10-body mass configurations above threshold, all scales, seeds, batch sizes and setter histories",
     "The tests check one four-body configuration with allclose at one scale and never reassign cme or masses.",
     ["hazma/phase_space/_rambo.py"],
     [("mass-shell Newton iteration", "Rambo._compute_scale_factor"), ("weights", "Rambo._compute_weights"),
      ("property setters", "Rambo.cme / Rambo.masses")],
     "runtime trace monitor on every generated event",
     "Every event of randomly drawn configurations is judged; energy within 1e-9 relative, weights recomputed independently. "
     "Sampling, not exhaustive.")

prop("P02", "Phase-space integrals, widths and cross sections match exact volumes",
     "The Monte-Carlo, three-body and two-body integrators reproduce the Lorentz-invariant phase-space integral of the squared "
     "matrix element (flat by default) with the 1/(2M) and flux prefactors for widths and cross sections, within their reported "
     "error. The result scales as M^(2n-4), is invariant under relabelling, is zero below threshold, and follows the current "
     "energy, masses and matrix element after reassignment, whichever matrix-element signature or batching is used.",
     ["inputs", "histories"], "all mass configurations, matrix elements in both signatures, integrators, batch splits and setter histories",
     "The tests integrate a handful of fixed Standard-Model processes.",
     ["hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_two_body.py"],
     [("MC integral and error", "Rambo.integrate"), ("Dalitz bounds", "ThreeBody._integration_bounds_y"),
      ("two-body angle integral", "TwoBody.integrate")],
     "differential runtime oracle (recursive volumes) over randomized integrals",
     "Independent recursive quadrature and closed forms decide; MC results judged at 6 sigma.")

prop("P03", "Phase-space distributions are normalised marginals on their exact support",
     "Every energy or pair invariant-mass distribution is non-negative, integrates to one over bins spanning exactly the "
     "kinematic limits of that particle or pair, and equals the corresponding marginal of the phase-space density weighted by "
     "the squared matrix element, whether obtained by quadrature or Monte Carlo, batched or not. Evaluation interpolates bin "
     "centres and is zero outside, and expectation values are the stated integrals of the stored density.",
     ["inputs"], "all mass configurations, matrix elements, bin counts, batch splits and test functions",
     "The tests compare a few distributions with recorded ones and never check support, batching or expectation values.",
     ["hazma/phase_space/_dist.py", "hazma/phase_space/_utils.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_rambo.py"],
     [("normalisation", "PhaseSpaceDistribution1D.__init__"), ("kinematic limits", "energy_limits / invariant_mass_limits"),
      ("marginals", "ThreeBody._partial_integration")],
     "runtime monitor on every distribution object with an independent marginal oracle",
     "Marginals compared at 1e-5 (quadrature) and by exact twin histograms plus chi-square (Monte Carlo).")

prop("P04", "Relativistic kinematics helpers are exact to rounding everywhere",
     "The two-body momentum, flux prefactor and Kallen function agree with arbitrary-precision arithmetic to rounding at every "
     "scale and arbitrarily close to threshold, are symmetric in the masses, and are respectively zero/infinite at and NaN below "
     "threshold. Four-vector products use the (+,-,-,-) metric along any axis and are boost invariant.",
     ["inputs"], "all masses and energies over twenty decades, thresholds approached to one ulp, all array layouts",
     "The tests sample a few mass pairs; the conditioning claim is for every input.",
     ["hazma/utils.py"],
     [("factored momentum", "two_body_momentum"), ("flux", "cross_section_prefactor"), ("metric", "ldot / lnorm_sqr / minkowski_dot")],
     "differential runtime oracle (60-digit arithmetic)",
     "Relative agreement at 1e-13 over random and threshold-hugging inputs.")

prop("P05", "Equilibrium thermodynamics is consistent and differentiable",
     "Equilibrium number densities equal the five-term Bessel series (and the quantum-statistics integral within its truncation) for "
     "fermions and bosons of any mass and degeneracy, comoving densities are that density over the entropy density, and all "
     "temperature and x derivatives are the true derivatives. Standard-Model degrees of freedom follow the tabulated values, "
     "clamped outside the table, and array, list and scalar inputs agree.",
     ["inputs"], "all temperatures, masses (including zero), degeneracies, statistics and array layouts",
     "No test evaluates any of these functions directly.",
     ["hazma/relic_density/_thermal_functions.py", "hazma/relic_density/smdof.dat"],
     [("densities", "neq / yeq / weq"), ("derivatives", "neq_deriv / yeq_deriv / yeq_derivx"), ("table", "sm_dof_entropy / sm_sqrt_gstar")],
     "differential runtime oracle with finite-difference consistency monitors",
     "Values at 1e-9, derivatives at 1e-5..1e-8 over twelve decades of temperature.")

prop("P06", "Thermal averages and relic densities solve the Boltzmann equation",
     "The thermally averaged cross section is the converged Maxwell-Boltzmann average of the model's total cross section above "
     "threshold, and a model's own average takes precedence. The Boltzmann right-hand side vanishes at equilibrium, relaxes "
     "towards it and has the stated Jacobian; numeric and semi-analytic relic densities agree with an independent solution "
     "of that equation (semi-analytic within 20%), honour their options, and decrease when annihilation strengthens. The "
     "relic-density limit returns the cross section at the coupling giving the observed abundance and leaves the model unchanged.",
     ["inputs", "configurations"], "all masses, temperatures, cross-section shapes, solver options, and the shipped mediator models",
     "The single test checks four constant cross sections against one number.",
     ["hazma/relic_density/_thermal_functions.py", "hazma/relic_density/_diffeq.py", "hazma/relic_density/_approx.py",
      "hazma/relic_density/_rd.py", "hazma/limits/_relic_density.py", "hazma/vector_mediator/_gev/thermal_cross_section.py", "rust/src/kernels/vector_xs.rs", "rust/src/kernels/scalar_xs.rs"],
     [("average", "thermal_cross_section"), ("freeze-out root", "compute_xstar"), ("ODE", "solve_boltzmann"),
      ("root in the coupling", "RelicDensityLimit._constrain")],
     "differential runtime oracle (independent quadrature and stiff integration) with invariant monitors",
     "Numeric relic density within 1% (1e-4 at tight tolerances) of an independent BDF solution.")

prop("P07", "Totals, branching fractions, spectra and lines agree with their channels",
     "For annihilating and decaying theories alike, the reported total rate is the sum of the channel rates, branching fractions "
     "are the channel shares (non-negative, summing to one, or all zero when no channel is open), each contribution to a photon, "
     "positron or neutrino spectrum is that channel's own spectrum times its branching fraction, the total is their sum, and closed "
     "channels contribute exactly zero. Lines carry the right energy and the channel's branching fraction. Scalars, lists and arrays of energies "
     "agree, and every rate of every shipped model is finite and non-negative.",
     ["inputs", "configurations"], "all theories implementing the interface, all shipped models, all energies, parameters and channel openings",
     "The tests check a few parameter points of two models; the rule must hold for any channel content.",
     ["hazma/theory/__init__.py", "hazma/scalar_mediator/__init__.py", "hazma/vector_mediator/__init__.py",
      "hazma/vector_mediator/_gev/model.py", "hazma/rh_neutrino/_model.py"],
     [("branching fractions", "annihilation_branching_fractions / decay_branching_fractions"), ("weighting", "spectra / positron_spectra"),
      ("closed channels", "spectrum_funcs"), ("lines", "gamma_ray_lines / positron_lines")],
     "runtime monitor on toy and shipped theories (independent aggregation of logged channel calls)",
     "Agreement at 1e-9..1e-14 over random theories and every shipped model.")


prop("P08", "Gamma-ray limits follow their statistical definitions",
     "For annihilating and decaying theories, the single-bin and chi-squared limits from a flux measurement, the unbinned limit for a "
     "planned telescope and the Fisher-matrix projections equal their defining formulas applied to the theory's own resolution-smeared "
     "spectrum, with the J- or D-factor, solid angle, effective area, observation time and background entering as documented. Limits scale "
     "exactly with those factors, do not depend on the theory's own rate, and are infinite when no photons fall in the window.",
     ["inputs", "configurations"], "all theories (continuum and lines), measurements, instruments, backgrounds, targets, significances and shipped telescopes",
     "The tests compute a few limits for one toy; the definitions must hold for every measurement and theory.",
     ["hazma/theory/_theory_gamma_ray_limits.py", "hazma/limits/_existing_telescope.py", "hazma/gamma_ray_parameters.py"],
     [("binned limits", "constrain_one_bin / constrain_chi_squared"), ("unbinned limit", "unbinned_limit"), ("Fisher projections", "_fisher_integration")],
     "differential runtime oracle (piecewise-linear integrator, closed-form test statistics) on random theories",
     "Limits at 1e-6..2e-3 against an independent evaluation of the definitions.")

prop("P09", "CMB energy-injection efficiencies and limits follow from the spectra",
     "The photon and electron efficiencies equal the energy-weighted integral of the theory's photon spectrum and of twice its positron "
     "spectrum against the published efficiency tables over the table's range, plus each line at its energy, divided by the "
     "centre-of-mass energy at the CMB velocity; the limit is the Planck bound times the mass over the summed efficiency. Both "
     "interfaces and both integration modes agree, each limit uses the model it is given, and the annihilation rate cancels.",
     ["inputs", "configurations"], "all annihilating theories, kinetic-decoupling temperatures, Planck bounds, integration modes and shipped models",
     "The tests check two parameter points of one model.",
     ["hazma/theory/_theory_cmb.py", "hazma/limits/_cmb.py", "hazma/cmb.py"],
     [("efficiency integrals", "_f_eff_helper"), ("velocity", "vx_cmb"), ("limit", "cmb_limit / CMBLimit._constrain")],
     "differential runtime oracle (Gauss-Legendre over table knots) on random and shipped theories",
     "Efficiencies at 3e-3 (quadrature) and 2e-2 (grid mode).")

prop("P10", "Detector response, instrument data and backgrounds are faithful",
     "Smearing a spectrum with a detector's energy resolution applies, for each true energy, a unit-normalised Gaussian of that energy's own "
     "width to continuum and lines alike, is linear, conserves photons, honours scalar-only resolution functions and raises outside "
     "its window. Effective areas, resolutions, measured fluxes, targets and backgrounds reproduce the published tables with "
     "the documented out-of-range behaviour; background derivatives are true derivatives, measurements never alter the caller's "
     "arrays, and marginalisation over energies equals the stated quadrature.",
     ["inputs", "configurations"], "all spectra, lines, resolution callbacks, energy windows, instruments, background parameters and quadrature methods",
     "The tests smear a handful of spectra and read a few table entries.",
     ["hazma/parameters.py", "hazma/gamma_ray_parameters.py", "hazma/flux_measurement.py", "hazma/background_model.py", "hazma/spectra/convolve.py"],
     [("response", "spec_res_fn"), ("smearing", "convolved_spectrum_fn"), ("true-energy grid", "_true_energy_grid"),
      ("error bars", "FluxMeasurement.__init__"), ("derivatives", "GalacticCenterBackgroundModel.derivatives")],
     "differential runtime oracle (independent quadrature of the response; tables re-read) with conservation monitors",
     "Smearing at 4e-3 of the local value, tables at 1e-9, derivatives at 1e-6.")

prop("P11", "Constraint images and rare-decay constraints hold at every grid point",
     "Each pixel of a constraint image equals the constraint of a freshly built model with those two parameters (rows follow the second "
     "parameter), on any grid shape and for model grids; level-set curves lie on the zero of the image in parameter units; binned "
     "gamma-ray images change sign where the single-bin limit is saturated; limits visit each model once, in order. For the Higgs-portal scalar the "
     "rare-meson-decay, invisible-Higgs and beam-dump constraints equal the bound minus the predicted contribution at every mass.",
     ["inputs", "configurations"], "all parameter pairs, grid shapes, measurements and significances; all Higgs-portal masses and couplings",
     "No test evaluates any constraint or image.",
     ["hazma/theory/_theory_constrain.py", "hazma/limits/_abstract.py", "hazma/limits/_existing_telescope.py",
      "hazma/scalar_mediator/_scalar_mediator_constraints.py", "hazma/constraint_parameters.py"],
     [("images", "TheoryConstrain.constrain / custom_constrain"), ("contours", "_img_to_ls"), ("iteration", "AbstractLimit.constrain"),
      ("meson decays", "constraint_B_k_invis etc."), ("beam dump", "constrain_beam_dump")],
     "runtime monitor comparing every pixel with a fresh model; closed-form differential oracle for the portal constraints",
     "Pixels at 1e-13, constraints at 1e-7 over twelve decades of lifetime.")


prop("P12", "Boosts conserve particles and energy and match the angular average",
     "Boosting a line or a continuum from a parent's rest frame gives, at every lab energy, the average over decay angles of the "
     "rest-frame spectrum: the number of products is unchanged, their mean energy grows by the Lorentz factor, boosts "
     "commute, slow parents approach the rest frame, unphysical velocities and energies below the product's mass give zero. This holds "
     "for function, array and table inputs, every quadrature method, and the Python, Cython and native twins alike.",
     ["inputs", "configurations"], "all line energies, spectra, tables, product masses, velocities in (0,1) and quadrature methods",
     "The tests compare a handful of points between twins, which share formulas, and pin table values.",
     ["hazma/spectra/boost.py", "hazma/_utils/boost.pyx", "rust/src/boost.rs", "rust/src/boost_probe.rs"],
     [("lines", "boost_delta_function / double_boost_delta_function"), ("continua", "make_boost_function / dnde_boost / dnde_boost_array"),
      ("tables", "boost_integrate_linear_interp"), ("velocity", "boost_beta / boost_gamma")],
     "runtime conservation monitors and differential oracle (lab-angle average, exact piecewise-linear integral) on random inputs",
     "1e-6 for quadrature, 1e-9..1e-11 for closed forms; tabulated boosts may equal either the stated integral or the documented coverage error.")

prop("P22", "Hadronic form-factor amplitudes equal the Herwig parametrisation",
     "For every hadronic channel of the GeV vector mediator (two pseudoscalars, pseudoscalar plus photon or vector, three- and four-meson "
     "states) the amplitude returned for any energy, Dalitz point or set of momenta and any quark couplings equals the published "
     "parametrisation. Two- and three-body amplitudes are linear in the couplings and agree between scalars and arrays; "
     "they vanish below threshold where documented, respect exchange of identical mesons, and the four-pion current is "
     "conserved, covariant, Bose symmetric and odd under charge conjugation.",
     ["inputs", "configurations"], "all channels, energies from threshold to 6 GeV, Dalitz points, momenta and quark couplings",
     "The tests compare widths on a few masses at five percent for some channels.",
     ["hazma/form_factors/vector/_pi_pi.py", "hazma/form_factors/vector/_k_k.py", "hazma/form_factors/vector/_pi_gamma.py",
      "hazma/form_factors/vector/_pi_k_k.py", "hazma/form_factors/vector/_pi_pi_pi0.py", "hazma/form_factors/vector/_pi_pi_pi_pi.py",
      "hazma/form_factors/vector/_pi_pi_eta.py", "hazma/form_factors/vector/_alpha.py"],
     [("amplitudes", "VectorFormFactor*.form_factor"), ("isospin", "_iso_spin_amplitudes"), ("running coupling", "alpha_em"),
      ("four-pion current", "VectorFormFactorPiPiPiPi.form_factor")],
     "differential runtime oracle (independent Herwig reference implementation) plus symmetry and conservation monitors",
     "2e-6 of the modulus (4e-6 three pions, 1e-5 four pions) at random points.")

prop("P31", "Form-factor widths, cross sections and distributions integrate the amplitude",
     "For every hadronic channel the integrated form factor, the partial width of the vector and the annihilation cross section equal the "
     "phase-space integral of the channel's own squared amplitude with its Lorentz structure, the vector's propagator and the dark-matter flux, for "
     "scalars and arrays, and vanish below threshold. Energy and invariant-mass distributions are normalised marginals of the same "
     "weight, identical particles have identical distributions, and quadrature and Monte Carlo agree.",
     ["inputs", "configurations"], "all channels, energies, masses, couplings, widths, bin counts and integration methods",
     "The tests compare some widths at five percent; distributions are never judged.",
     ["hazma/form_factors/vector/_three_body.py", "hazma/form_factors/vector/_two_body.py", "hazma/form_factors/vector/_four_body.py",
      "hazma/form_factors/vector/_base.py"],
     [("three-body integrals", "_integrated_form_factor"), ("marginals", "_energy_distributions / _invariant_mass_distributions"),
      ("flux and propagator", "cross_section"), ("width", "width")],
     "differential runtime oracle (Gauss-Legendre over the Dalitz region, own events) with normalisation monitors",
     "Integrals at 1e-5..3e-3; four-pion Monte Carlo within its statistical error.")

prop("P13", "Photon decay spectra are the boosted photons of the particle's decays",
     "For muon, charged and neutral pion, kaons, eta, eta', omega, phi and rho: dnde_photon_X gives the photons per decay of a moving parent: the "
     "rest-frame spectrum (matrix element or the published table) boosted isotropically, plus the lines of two-body radiative decays. Values are finite "
     "and non-negative, zero below the parent's mass and outside the kinematic range, independent of array shape and order; the photon number does "
     "not depend on the boost and photon energy stays within the parent's energy.",
     ["inputs", "configurations"], "all parents with photon spectra, parent energies from rest to ultra-relativistic, photon energies, array shapes",
     "The parity corpus samples a few energies against recorded values of the code itself; exact boosts and sums are never computed.",
     ["hazma/spectra/_photon", "rust/hazma_core/src", "hazma/spectra/boost.py"],
     [("muon and pion matrix elements", "photon_muon / photon_pion kernels"), ("tables", "photon kaon/eta/omega/phi/eta' kernels"),
      ("lines and boosts", "boost_delta_function / boost integrals"), ("rho", "photon_rho kernel")],
     "differential runtime oracle (independent decay kinematics and exact table integrals) plus conservation monitors",
     "Six documented or data defects are accepted next to the true value and reported as known findings.")

prop("P14", "Positron decay spectra are the boosted positrons of the particle's decays",
     "dnde_positron_X gives positrons per decay for muons, charged pions and every meson table: the V-A muon spectrum, the pi -> mu -> e chain with "
     "the pi -> e nu line, or the published rest-frame table, boosted isotropically to the parent's energy. Spectra are finite and non-negative, vanish "
     "below the parent's mass and beyond the kinematic endpoint, accept scalars, integers, sequences and arrays alike; positron numbers are boost "
     "independent and energies stay within the parent's energy.",
     ["inputs", "configurations"], "all parents with positron spectra, parent energies from rest to ultra-relativistic, positron energies, shapes",
     "The parity corpus pins the muon and the charged pion at sampled energies; no test covers the meson tables or the sums.",
     ["hazma/spectra/_positron", "rust/hazma_core/src"],
     [("muon", "positron_muon kernel"), ("charged pion chain", "positron_pion kernel"), ("tables", "_positron/_utils.py load_interp / dnde_positron")],
     "differential runtime oracle (Michel spectrum, two-step boost, exact table integrals) plus conservation monitors",
     "Two documented defects pinned by the parity corpus are known findings.")

prop("P15", "Neutrino decay spectra carry the right flavors, numbers and boosts",
     "dnde_neutrino_X returns for electron, muon and tau flavor the neutrinos per decay of a moving parent: V-A spectra for muons, prompt line plus "
     "muon chain for pions, the published tables for other mesons (plus the prompt line of K -> mu nu), boosted isotropically. Flavor selection returns exactly the row of the full result, unknown "
     "flavors raise ValueError, scalars follow arrays, spectra vanish below the parent's mass and above the endpoint; numbers are boost "
     "independent, each electron or positron comes with one electron-type neutrino, muon flavor counts match the decay chain, and photons, electrons "
     "and neutrinos of one decay together carry the parent's energy (except eta' and phi, whose tables are incomplete).",
     ["inputs", "configurations"], "all parents with neutrino spectra, flavors, parent energies from rest to ultra-relativistic, neutrino energies",
     "Only muon and pion are pinned, at sampled energies; flavors and lepton number of the meson tables are untested.",
     ["hazma/spectra/_neutrino", "rust/hazma_core/src"],
     [("muon", "neutrino_muon kernel"), ("charged pion", "neutrino_pion kernel"), ("tables and flavors", "_neutrino/_utils.py")],
     "differential runtime oracle (V-A spectra, exact table integrals) plus lepton-number conservation monitors",
     "Five defects of pinned kernels or shipped tables are known findings.")

prop("P18", "Scalar-mediator widths and cross sections are its tree-level amplitudes",
     "For every scalar mediator (generic, Higgs portal, heavy quark) partial widths, s-channel annihilation cross sections, x x -> S S, its crossing, "
     "x S -> x S and dark-matter self scattering equal the phase-space integrals of the squared tree-level and chiral amplitudes of the documented "
     "Lagrangian, for any masses, couplings and scalar vacuum value. They vanish below threshold, are finite and non-negative, widths add up to "
     "the stored total and scalars agree with arrays.",
     ["inputs", "configurations"], "all masses, couplings, mediator classes, vacuum values and energies (closed, threshold, resonant, far)",
     "The tests pin a few parameter points to recorded numbers; no test derives a width or cross section from an amplitude.",
     ["hazma/scalar_mediator", "rust/src/kernels/scalar_xs.rs"],
     [("widths", "_scalar_mediator_widths.py"), ("cross sections", "_scalar_mediator_cross_sections.py and scalar_xs.rs"), ("couplings", "ScalarMediator, HiggsPortal, HeavyQuark")],
     "runtime differential oracle: explicit Dirac traces and chiral amplitudes integrated over phase space, crossing and detailed balance",
     "The compiled elastic cross sections use equal-mass kinematics (pinned by the corpus): six known findings.")

prop("P19", "Vector-mediator widths and cross sections are its tree-level amplitudes",
     "For every sub-GeV vector mediator (generic, kinetic mixing, quarks only) partial widths, s-channel annihilation cross sections (leptons, "
     "pions, pi0 gamma, pi0 V, three pions), x x -> V V and dark-matter self scattering equal the phase-space integrals of the squared tree-level "
     "and anomaly amplitudes, for any masses and couplings. Cross sections factorise through the width of the off-shell mediator, "
     "vanish below threshold, are finite and non-negative; widths add up to the stored total and scalars agree with arrays.",
     ["inputs", "configurations"], "all masses, couplings, mediator classes and energies (closed, threshold, resonant, far)",
     "The tests pin a few parameter points to recorded numbers; no test derives a width or cross section from an amplitude.",
     ["hazma/vector_mediator/_vector_mediator_widths.py", "hazma/vector_mediator/_vector_mediator_cross_sections.py", "rust/src/kernels/vector_xs.rs"],
     [("widths", "_vector_mediator_widths.py"), ("kernels", "vector_xs.rs"), ("three pions and self scattering", "_vector_mediator_cross_sections.py")],
     "runtime differential oracle: s-channel factorisation with independent widths, explicit Dirac traces, Dalitz integration",
     "The compiled pi0 gamma and pi0 V kernels miss a factor nine and two kernels raise exactly at threshold (pinned): four known findings.")

prop("P16", "Final-state radiation equals the radiative tree-level spectrum",
     "dnde_photon_fsr returns dGamma_rad/dE over Gamma_0 for any pair of squared matrix elements, masses and energies: it evaluates them only on "
     "physical momenta (conserved, on shell, right photon energy), is exact for two bodies, within its reported error and reproducible by seed for more, "
     "independent of common factors, and zero beyond the endpoint. The mediators' closed-form FSR spectra (leptons, pions) equal the QED amplitudes, the "
     "Altarelli-Parisi functions their documented splitting formula for scalars, sequences and arrays. Invalid requests raise the documented errors.",
     ["inputs", "configurations"], "all masses, center-of-mass and photon energies, matrix elements, multiplicities, seeds, methods",
     "Tests pin a few matrix elements at a few energies; a handful of points cannot settle formulas in three variables.",
     ["hazma/spectra/_fsr.py", "hazma/spectra/altarelli_parisi.py", "hazma/scalar_mediator/_scalar_mediator_fsr.py", "hazma/vector_mediator/_vector_mediator_fsr.py"],
     [("generator", "_fsr.dnde_photon_fsr"), ("splitting", "altarelli_parisi.py"), ("closed forms", "dnde_xx_to_*_to_ffg / pipig")],
     "conservation monitors on every momentum handed to hooked matrix elements plus differential oracle (explicit QED traces, independent quadrature)",
     "Monte-Carlo values are judged within seven of their own standard errors and by the spread of pulls.")

prop("P17", "Many-body spectra add up every final-state particle over phase space",
     "dnde_photon, dnde_positron and dnde_neutrino of an n-body final state equal the sum over its particles of their decay spectra averaged over the "
     "energy each has in phase space weighted by the squared matrix element, plus FSR of each charged particle averaged over pair masses, plus "
     "positron/neutrino/photon final states themselves in their own row. Order, scalar or array energies, integrator and flavor selection do not "
     "matter, one- and two-body states are exact, energies below threshold and unknown states or flavors raise.",
     ["inputs", "configurations"], "all pairs of the sixteen supported states; random three- to five-body states, matrix elements, energies, integrators",
     "Tests compare two-body sums with abs=1e-2 at one energy and only check that three bodies run.",
     ["hazma/spectra/_nbody.py"],
     [("two bodies", "_dnde_two_body"), ("many bodies", "_dnde_multi_particle"), ("FSR", "_dnde_photon_fsr"), ("tables of states", "_spectra_dict")],
     "differential runtime oracle: exact sums for two bodies, recursive phase-space distributions for more, integrated difference of spectra",
     "Many-body spectra are judged by the integrated difference (2-7 percent), the accuracy of the binned distributions the code uses.")

prop("P21", "Right-handed neutrino: V-A widths, distributions, spectra and histories",
     "RHNeutrino partial widths equal the tree-level V-A amplitudes (documented form factors and decay constants) integrated over phase space, counting "
     "both charge modes of a non-self-conjugate state once; they vanish at and below threshold, sum to the total and scale as tan^2(2 theta)/4. Squared "
     "amplitudes and energy and invariant-mass distributions follow the same amplitudes in final-state order. Photon, positron and neutrino spectra of "
     "a channel are the n-body spectra of its own particles, carry the decay's energy, and lines sit at two-body energies. Setters leave the model equal to a new one.",
     ["inputs", "histories"], "all flavors, masses, mixing angles of both signs, channels, products, setter sequences",
     "The only tests check that widths vanish below threshold and that spectra evaluate without raising.",
     ["hazma/rh_neutrino/_model.py", "hazma/rh_neutrino/_widths.py", "hazma/rh_neutrino/_spectra.py", "hazma/rh_neutrino/_configure.py"],
     [("widths", "_widths.py"), ("squared amplitudes", "_widths.msqrd_*"), ("spectra", "_spectra.dnde_*"), ("bookkeeping", "_model.RHNeutrino, _configure.configure")],
     "differential runtime oracle (current contractions integrated over Dalitz regions), energy-balance monitor, history equality with fresh models",
     "Spectra of channels with an open tau are not supported by the code and not judged; hadronic form factors are taken from P22.")

prop("P20", "GeV vector mediator: widths, cross sections, spectra, lines, histories",
     "For the GeV vector-mediator models every partial width and cross section is the same amplitude seen by a mediator of mass sqrt(s): leptonic and "
     "two-mediator channels equal the Dirac traces (identical mediators counted once), hadronic ones those of their form factor, closed channels are zero, "
     "fractions sum to one. Each channel's photon, positron and neutrino spectrum is the sum of the decay spectra of its own particles over their energy "
     "distributions plus final-state radiation and carries the event's energy; v v spectra are the boosted, branching-weighted mediator decays whatever "
     "energies are requested; lines sit at two-body energies. Setter and query histories leave the model equal to a fresh one; forbidden setters raise and change nothing, "
     "and the form-factor methods are the amplitudes at the current couplings.",
     ["inputs", "histories"], "all masses, couplings of both signs, energies, channels, products, setter and query sequences",
     "The tests for these models cannot import without the native core or only check that calls return.",
     ["hazma/vector_mediator/_gev/model.py", "hazma/vector_mediator/_gev/widths.py", "hazma/vector_mediator/_gev/cross_sections.py", "hazma/vector_mediator/_gev/spectra.py",
      "hazma/vector_mediator/_gev/positron.py", "hazma/vector_mediator/_gev/neutrino.py", "hazma/vector_mediator/_gev/utils.py"],
     [("widths and cache", "_gev.widths, model.with_cache"), ("cross sections", "_gev.cross_sections.sigma_xx_to_*"), ("spectra", "_gev.spectra, positron, neutrino: dnde_*"),
      ("rest-frame boost", "_gev.utils.boost_from_rest_frame"), ("setters", "model.VectorMediatorGeV, KineticMixingGeV, BLGeV")],
     "differential runtime oracle (crossing, Dirac traces, independent composition and boost), energy-balance monitor, history equality with fresh models",
     "Monte-Carlo channels run with a pinned sampler; form factors and their distributions are judged by P22 and P31. The monochromatic e+e- and neutrinos of mediator decays are not part of v v continua.")

prop("P26", "MeV mediator decay spectra are boosted, width-weighted channel spectra",
     "The compiled photon and positron spectra of a moving scalar or vector mediator equal the rest-frame spectra of its decay channels (decays, radiation, lines) "
     "weighted by the given widths and boosted to its energy: additive over modes, linear in the widths, zero below the mediator's mass, the electron mass and "
     "channel thresholds, and equal between scalar and array calls. The models' spectra for annihilation into mediators (and mediator plus pion) are those of the "
     "decay products at the energies two-body kinematics gives them, with the current branching fractions; those for annihilation into Standard-Model pairs are radiation "
     "plus the decays of both particles at half the center-of-mass energy (photons and positrons), and lines sit at the two-body energies.",
     ["inputs"], "all mediator masses, boosts, widths, modes, energies and model couplings",
     "Tests compare a few stored points to stored values; a wrong weight, jacobian or frame away from them passes.",
     ["hazma/scalar_mediator/scalar_mediator_decay_spectrum.pyx", "hazma/scalar_mediator/scalar_mediator_positron_spec.pyx",
      "hazma/vector_mediator/vector_mediator_decay_spectrum.pyx", "hazma/vector_mediator/vector_mediator_positron_spec.pyx",
      "hazma/scalar_mediator/_scalar_mediator_spectra.py", "hazma/vector_mediator/_vector_mediator_spectra.py"],
     [("boost integrals", "*_decay_spectrum.pyx, *_positron_spec.pyx"), ("model spectra", "dnde_ss, dnde_vv, dnde_pi0v, dnde_pos_*")],
     "differential runtime oracle: independent direct-integration boost of channel spectra; linearity, additivity and kinematic-bound monitors",
     "Single-particle spectra are judged by P13/P14 and radiation by P16. The quadrature steps over narrow spikes (recorded); isolated energies within 0.5% of the peak are within tolerance.")
prop("P27", "Calls are pure: inputs, results, objects, order and threads never interfere",
     "Calling any spectrum, form factor, kinematics, limit, CMB, relic-density helper or model method changes neither its array arguments nor numpy's error "
     "state nor (for deterministic quantities) the global random state; read-only, strided and reversed-view inputs are accepted and give the same values, and whole "
     "numbers carried by another numeric type give the same values or are refused. Results "
     "belong to the caller: overwriting them never changes later answers. The same call gives bit-identical results in any order, after any other calls, in any of "
     "several concurrent threads, objects of the same class share no mutable state, and phase-space objects keep the values they were built from when the caller reuses "
     "the arrays.",
     ["inputs", "histories", "schedules"], "all calls, argument layouts, call orders and thread interleavings",
     "Tests run each call once, alone, in one thread; leaked state only shows in combinations.",
     ["hazma/scalar_mediator", "hazma/vector_mediator", "hazma/spectra", "hazma/theory", "hazma/phase_space", "hazma/form_factors", "rust/src/dispatch.rs"],
     [("per-call tables", "mediator *_spectrum.pyx, *_positron_spec.pyx"), ("no cached arrays escape", "hazma.spectra tables, form_factors"), ("independent instances", "model constructors and caches")],
     "trace monitor over shuffled, aliased, scribbled and multi-threaded replays against first-call records (bit equality), with overlap counted",
     "Threads are CPython threads under the GIL with a 10-microsecond switch interval; schedules are sampled, not enumerated.")

prop("P23", "Native entry points: scalar, array and error contract",
     "Every compiled spectrum, cross-section and boost entry point: a Python number or 0-d numeric array returns float(s); a 1-D float64 array or sequence of floats, "
     "of any stride, direction or length including zero, returns a fresh float64 array of matching length whose every element has the bits of the scalar call (neutrinos: "
     "one row per flavour). Inputs are unchanged and never aliased. Higher rank or other dtypes are ValueErrors naming the quantity; non-numbers are TypeErrors. "
     "Positional and keyword forms agree, and no float makes a call panic.",
     ["inputs"], "all entry points, argument forms and floats, including non-finite ones",
     "Tests send a few well-formed arrays to a few functions; the contract is over every form and function.",
     ["rust/src/dispatch.rs", "rust/src/lib.rs", "rust/src/photon.rs", "rust/src/positron.rs", "rust/src/neutrino.rs", "rust/src/scalar_mediator.rs", "rust/src/vector_mediator.rs", "rust/src/boost.rs"],
     [("scalar/array dispatch", "dispatch.rs"), ("module registration", "lib.rs"), ("wrappers", "hazma/spectra")],
     "runtime contract monitor: every exported callable through every argument form, array results compared bit-for-bit with scalar calls",
     "pyo3 and numpy's Rust bindings are stand-ins, so their own conversions are modelled, not judged.")
prop("P24", "Native numerics: quadrature, interpolation, special functions",
     "The compiled quadrature returns integrals equal to QUADPACK's on the same integrand, within the larger of its reported error and the requested tolerance whenever it "
     "reports success, over finite, reversed and empty ranges and with break points; it never evaluates outside the range, respects its subdivision limit, flags non-convergence and "
     "propagates integrand exceptions. Gauss-Kronrod rules are exact for the polynomials they must integrate. Interpolation equals numpy's. Spence's function and the Bessel functions "
     "K equal their definitions over all finite arguments.",
     ["inputs"], "all integrands, ranges, tolerances, knots and arguments",
     "Tests sample a few integrands and arguments; convergence logic is only exercised by hard ones.",
     ["rust/src/quad.rs", "rust/src/interp.rs", "rust/src/special.rs"],
     [("adaptive quadrature", "rust/src/quad.rs"), ("interpolation", "rust/src/interp.rs"), ("special functions", "rust/src/special.rs")],
     "differential runtime oracle with an abscissa-trace monitor: scipy QUADPACK, mpmath, numpy; exactness and error-bound monitors",
     "cephes' k0/k1 come from this framework's stand-in of the spec_math crate.")

prop("P25", "Native code is memory-safe, panic-free and leak-free on any input",
     "No argument, well-formed or hostile, makes a compiled function (mediator spectra, boosts, Rust kernels, quadrature, interpolation) read or write outside its buffers, execute undefined "
     "behaviour, overflow an integer, panic, die or swallow an exception: it returns a value or raises an ordinary exception. Covered: short, long, empty, strided, "
     "read-only or broadcast arrays, wrong dtypes, non-finite energies, masses and widths, unknown modes, and callbacks that raise, re-enter or return rubbish. "
     "Repeating any call, refused or not, does not accumulate memory.",
     ["inputs"], "all arguments of every compiled function",
     "Tests pass well-formed arguments and cannot see an out-of-bounds read that returns a plausible number, or a slow leak.",
     ["rust/src", "hazma/scalar_mediator/scalar_mediator_decay_spectrum.pyx", "hazma/scalar_mediator/scalar_mediator_positron_spec.pyx",
      "hazma/vector_mediator/vector_mediator_decay_spectrum.pyx", "hazma/vector_mediator/vector_mediator_positron_spec.pyx", "hazma/_utils/boost.pyx",
      "hazma/spectra/_photon/_muon.pyx", "hazma/spectra/_photon/_pion.pyx", "hazma/spectra/_positron/_muon.pyx", "hazma/spectra/_positron/_pion.pyx"],
     [("bounds checks", "mediator *.pyx, boost.pyx"), ("guards before panics", "rust/src/*_probe.rs, dispatch.rs")],
     "AddressSanitizer on the Cython and Rust code, UndefinedBehaviorSanitizer on the Cython code, Rust debug assertions and overflow checks, swallowed-exception hook, malloc growth monitor",
     "numpy, scipy and CPython are not instrumented; the Rust bindings are stand-ins.")

prop("P28", "Channels open exactly at threshold; constants agree with publication",
     "Every channel of every shipped model (annihilation cross sections, mediator and right-handed-neutrino widths, many-body spectra) is exactly zero just below, and positive just above, the "
     "larger of the sum of the published masses of its final particles and the energy brought in by the initial ones. Masses, widths, charges, particle codes, mixing elements, low-energy and "
     "cosmological constants equal the published values and the relations between them hold; modules that carry a mass of their own carry the same one; unit conversions are exact and invert.",
     ["inputs"], "all channels on both sides of threshold for random couplings and masses, every constant, every module, random values to convert",
     "Tests evaluate channels far from their thresholds and pin results computed with whatever constants are in the tree.",
     ["hazma/parameters.py", "hazma/scalar_mediator", "hazma/vector_mediator", "hazma/rh_neutrino", "hazma/spectra"],
     [("threshold guards", "scalar_mediator, vector_mediator, vector_mediator/_gev, rh_neutrino"), ("constants and conversions", "hazma/parameters.py"), ("carried masses", "module globals")],
     "two-sided threshold monitor on every channel, and runtime scan of module constants against published values",
     "Values with fitted meaning (form-factor fits, low-energy constants) are held to the publication quoted in the code.")

prop("P29", "Single-channel and black-hole models report exactly what they were given",
     "A single-channel model reports its cross section or width, fraction one, the many-body spectrum of its final state and lines at the two-body energies, for any final state, mass and energy, "
     "also after any history of attribute changes; two-photon states count two photons in detectors and in the CMB, however the photon is spelled. A black hole reports the published rates of its "
     "mass and table (log-free linear interpolation in energy, zero outside), keeps up with mass changes, refuses masses without a table, and its flux limit does not depend on the dummy fraction.",
     ["inputs", "histories"], "final states, masses, energies, strengths, attribute histories, table rows",
     "Tests build one or two objects and never change them afterwards.",
     ["hazma/single_channel.py", "hazma/pbh.py", "hazma/pbh_data", "hazma/theory/_theory_cmb.py", "hazma/limits/_cmb.py", "hazma/parameters.py"],
     [("single-channel observables", "hazma/single_channel.py"), ("black-hole tables", "hazma/pbh.py"), ("two-photon multiplicity", "parameters.convolved_spectrum_fn, _theory_cmb, limits/_cmb")],
     "history monitor comparing each observable with the definition, the raw tables and the efficiency curves",
     "Decays heavier than the particle are refused by the spectra with ValueError, which counts as holding.")

prop("P30", "A changed, reused or copied object equals a freshly built one",
     "For every mediator model and its named variants, the right-handed neutrino, and the two-body, three-body and many-body phase-space objects: after any history of attribute changes and queries, every "
     "observable (couplings, widths, cross sections, fractions, elastic and inverse rates, lines, spectra, constraints, thermal cross section, integrals, distributions, events) equals that of an "
     "object built directly with the current parameters. Named variants always carry their documented couplings and refuse direct changes to them without side effects; copies and pickles are "
     "equal and independent.",
     ["histories"], "random histories of setters and queries of every model variant and integrator",
     "Tests set an attribute once, if at all, and check that attribute rather than everything derived from it.",
     ["hazma/scalar_mediator/__init__.py", "hazma/vector_mediator/__init__.py", "hazma/vector_mediator/_gev/model.py", "hazma/rh_neutrino/_model.py", "hazma/phase_space/_two_body.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_rambo.py"],
     [("setters and cached widths", "scalar_mediator/__init__.py, vector_mediator/__init__.py"), ("setters of the integrators", "hazma/phase_space")],
     "differential history monitor: mutated or copied object against a fresh one, plus documented-coupling invariants",
     "Failures (division by zero for a vanishing width) must be the same on both sides. Setting lam on the named scalar variants is outside their documented interface.")

prop("P32", "Batches of energies equal their elements in every spelling",
 "For every function of energy the Python API composes — photon, positron and neutrino spectra of every model and channel, their totals, annihilation cross sections, many-body spectra, "
 "form-factor amplitudes, integrals, widths and cross sections, effective areas, energy resolutions, backgrounds and their derivatives, thermal functions, boosts and smeared spectra — evaluating a batch "
 "of energies gives for each energy the value the function gives for that energy alone: as a float, a NumPy scalar, a one-element batch, a head, tail, reversed, strided, read-only, permuted or repeated "
 "batch. Lists, tuples, integers and empty batches are either refused with an exception or give those same values. Documented scalar calls do not raise.",
 ["inputs", "configurations"], "random energies, model parameters, channels and center-of-mass energies, replayed in thirteen spellings of the batch",

 "tests evaluate one array per function; a dependence on the batch (length, order, neighbours, dtype, layout) needs the same energies in other company",
 ["hazma/theory/__init__.py", "hazma/scalar_mediator", "hazma/vector_mediator", "hazma/rh_neutrino", "hazma/single_channel.py", "hazma/form_factors/vector", "hazma/spectra", "hazma/gamma_ray_parameters.py", "hazma/relic_density/_thermal_functions.py"],
 [("batch dispatch of GeV cross sections", "hazma/vector_mediator/_gev/cross_sections.py"), ("n-body composition", "hazma/vector_mediator/_gev/spectra.py")],
 "runtime metamorphic monitor: the same energies replayed through the real functions in thirteen spellings, each answer compared with the plain batch's element",
 "GeV mediator-pair spectra are quadratures on a grid that depends on the batch: 1e-3 there, 1e-7 to 1e-9 elsewhere.")


def main():
    (ROOT / "properties.jsonl").write_text("".join(json.dumps(p["prop"]) + "\n" for p in P))
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -m hv.setup",
           "hooks": {"guard": "none", "enable": "No hooks were needed: all instrumentation wraps the code from /verif.",
                     "source_commits": []},
           "checks": [p["check"] for p in P], "not_applicable": []}
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(P), "properties")


if __name__ == "__main__":
    main()
