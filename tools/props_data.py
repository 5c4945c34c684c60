"""Property texts: one entry per property; build_docs.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note, **anchors):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, anchors=anchors))


GVN = 'abstract interpretation of the source to value numbers; equality of value numbers by random interpretation (global value numbering)'
POT = ['primpy/potentials.py']
BGF = ['primpy/time/inflation.py', 'primpy/efolds/inflation.py']

p('C01', 'Potential derivatives are consistent with the potential',
  'For every inflationary potential that can be constructed, each of the reported derivatives of the potential with respect to the field (first to fourth) is the exact derivative of the one before it, at every field value and parameter choice, for scalars and elementwise for arrays. A potential with a feature is the smooth potential times one plus the feature function, with equally consistent derivatives.',
  ['inputs'], 'every potential class, every parameter value, every field value (both signs for monomials)',
  'Tests sample a few field values with loose finite differences for some classes; a wrong coefficient in a high derivative that is multiplied by a small number passes.',
  POT, [('hand-written derivative ladders V, dV, d2V, d3V, d4V of each potential', 'primpy/potentials.py'),
        ('product rule in the feature potential mix-in', 'primpy/potentials.py FeaturePotential')],
  'abstract interpretation to value numbers; formal differentiation of the value numbers; GVN by random interpretation',
  'Exact up to value-number equality; the derivative is formed symbolically from the analysed source.')
p('C02', 'Potential slow-roll parameters follow their defining recursions',
  'For every potential the first potential slow-roll parameter is half the squared logarithmic slope of the potential, and each following one is minus the logarithmic slope times the logarithmic derivative of its predecessor. The conversions to Hubble-flow parameters agree with the exact flow relations order by order.',
  ['inputs'], 'every potential class, parameter value and field value',
  'Tests compare a handful of points between classes; higher orders are only checked for being finite.',
  POT, [('per-class closed forms of the slow-roll parameters', 'primpy/potentials.py get_epsilon_*'),
        ('series conversion from potential to Hubble-flow parameters', 'primpy/potentials.py InflationaryPotential')],
  GVN, 'Formal identities between value numbers; series truncation order checked in a formal expansion parameter.')
p('C03', 'End-of-inflation field value is where slow roll ends',
  'The field value that a potential reports as the end of inflation is a point where its first potential slow-roll parameter equals one, on the side of the minimum where inflation happens.',
  ['inputs'], 'every potential class and parameter value, closed-form and root-searched alike',
  'Tests evaluate single parameter choices per model.',
  POT, [('closed forms or bracketed root search for the end of slow roll', 'primpy/potentials.py get_phi_end / phi_end')],
  GVN, 'For root searches the analysis decides that the searched function vanishes exactly at the end of slow roll; convergence of the root finder is trusted.')
p('C04', 'Slow-roll e-folds and field value are inverse maps with the right slope',
  'For every potential the slow-roll number of remaining e-folds as a function of the field has slope potential over its derivative, vanishes at the end of inflation, and the reported inverse map returns the field value that has the requested number of e-folds.',
  ['inputs'], 'every potential class, parameter value, field value and e-fold number in the slow-roll regime',
  'Tests check a few round trips with loose tolerance.',
  POT, [('closed-form or tabulated slow-roll trajectories', 'primpy/potentials.py sr_phi2N, sr_N2phi')],
  GVN, 'Tabulated inverses are decided at the table abscissae; interpolation error is out of scope.')
p('C05', 'Slow-roll spectral maps are invertible and agree with the potential',
  'For every potential that offers them, the maps from e-folds to spectral index and to tensor-to-scalar ratio and the corresponding inverse maps undo each other, and a special-case model agrees with the general model at its exponent. For many e-folds they agree to leading order with one minus twice the first minus the second slow-roll parameter, and with sixteen times the first, at the field value with that many e-folds left.',
  ['inputs'], 'every potential class with such maps, every parameter value and e-fold number',
  'Tests only compare published benchmark points for some models.',
  POT, [('slow-roll maps to n_s and r', 'primpy/potentials.py sr_Nstar2ns, sr_ns2Nstar, sr_Nstar2r, sr_r2Nstar')],
  GVN, 'Inverse maps are exact identities between value numbers; the leading-order agreement is decided asymptotically in the e-fold number.')
p('C06', 'Potential amplitude is a pure normalisation fixed by A_s',
  'The energy scale of a potential only rescales it: slow-roll parameters, end of inflation and slow-roll e-folds do not depend on it, and the potential value and its inverse map are consistent. Requesting a scalar amplitude yields exactly the scale whose slow-roll amplitude at the requested pivot (given as e-folds or field value, never both or neither) is that amplitude, for every potential, and unknown parameters are rejected.',
  ['inputs', 'configurations'], 'every potential class, amplitude, pivot and parameter choice',
  'Tests use one amplitude and pivot per model and tolerate the approximation error.',
  POT, [('sr_As2Lambda, inv_V and constructors', 'primpy/potentials.py')], GVN, 'Exhaustive over the classes found in the source.')
p('C09', 'Background derivatives are mutually consistent along the evolution',
  'Along any background evolution, the reported Hubble rate satisfies the Friedmann equation including curvature, the field acceleration satisfies the Klein-Gordon equation, and every reported higher derivative of the Hubble rate and of the field is the exact derivative of the one below. This holds for flat, open and closed universes and for both choices of independent variable.',
  ['inputs', 'configurations'], 'every state (e-folds, field, velocity), potential and curvature, both independent variables',
  'Tests compare derivatives numerically on a few mostly flat slow-roll trajectories where wrong terms are negligible.',
  BGF, [('closed-form derivative ladders', 'get_H2 .. get_d4phi in both modules')],
  'abstract interpretation to value numbers; formal Lie derivative along the flow; GVN by random interpretation',
  'Potential is opaque with a formal derivative ladder; curvature symbolic.')
p('C10', 'Cosmic-time and e-fold formulations describe the same universe',
  'At the same physical state the cosmic-time and e-fold formulations report the same Hubble rate, potential, equation of state, inflation diagnostic and slow-roll parameters, and their evolution equations are related by the Hubble rate for every tracked quantity.',
  ['inputs', 'configurations'], 'every state, potential and curvature',
  'Tests compare full numerical runs for selected models, where small or curvature-suppressed discrepancies disappear in the tolerance.',
  BGF, [('two sibling implementations of the background equations', 'InflationEquationsT / InflationEquationsN')],
  GVN, 'Sibling agreement under the exact change of variables.')
p('C11', 'Slow-roll parameters of the background follow their definitions',
  'The Hubble-flow parameters of the background are successive logarithmic derivatives of the Hubble rate with respect to e-folds, the alternative (Gong) parameters are time derivatives of the first one in Hubble units, and the field parameters are time derivatives of the field in Hubble units, for any curvature and both independent variables.',
  ['inputs', 'configurations'], 'every state, potential, curvature, variant and independent variable',
  'Tests compare the two formulations with each other on slow-roll trajectories, so shared or suppressed errors pass.',
  BGF, [('closed-form slow-roll parameters', 'get_epsilon_*H, get_delta_* in both modules')],
  'abstract interpretation to value numbers; formal Lie derivative along the flow; GVN by random interpretation', 'As C09.')
p('C12', 'Evolution equations fill every tracked component correctly',
  'In every tracking configuration (with or without time and conformal time) the evolution equations assign every component of the state its own physical rate of change, and each named quantity is read from the same component that is evolved under that name.',
  ['inputs', 'configurations'], 'every combination of tracking options, every state',
  'Tests run a few of the combinations and rarely look at the optional components.',
  BGF + ['primpy/equations.py'], [('index bookkeeping of state components', 'primpy/equations.py'), ('right-hand sides', '__call__')],
  'abstract interpretation with symbolic state vectors; definite-assignment of every component; GVN', 'Exhaustive over tracking configurations.')
p('C13', 'Inflation diagnostic, equation of state and acceleration agree',
  'The inflation diagnostic used for event tracking is positive exactly when the equation of state is below minus one third and exactly when the expansion accelerates; the equation of state is pressure over energy density. This holds for any curvature and both independent variables.',
  ['inputs', 'configurations'], 'every state, potential and curvature',
  'Tests look at the diagnostic only through runs in which all three conditions flip together within tolerance.',
  BGF, [('w and inflating', 'both modules')], GVN, 'Identity inflating = -(3/2)(w+1/3)rho = 3(dH/dt+H^2).')

PERT = ['primpy/perturbations.py', 'primpy/time/perturbations.py', 'primpy/efolds/perturbations.py']
p('C29', 'Perturbation equations are the curved-space mode equations in both variables',
  'For every background, curvature and wavenumber, the frequency and damping used for scalar modes are those of the gauge-invariant comoving curvature perturbation equation with curvature, and those for tensor modes are those of the transverse traceless equation, in cosmic time and in e-folds alike. All coefficients cover the same stretch of the background, from the requested first to the requested last point inclusive, and a negative squared frequency yields an imaginary frequency, never an invalid number.',
  ['inputs', 'configurations'], 'every background solution, curvature, wavenumber, start and end point',
  'Tests compare the two parametrisations with loose tolerance on a few backgrounds; a term suppressed by curvature, or an error common to both, is invisible.',
  PERT, [('coefficients of the mode equations', 'primpy/time/perturbations.py, primpy/efolds/perturbations.py')],
  'abstract interpretation to value numbers; formal Lie derivative along the background flow; path-fact analysis of the square-root guard; GVN',
  'The oracle is the curved Mukhanov-Sasaki equation of Handley (2019) written once, in the analysis.')
p('C30', 'Vacuum initial conditions are normalised and positive-frequency',
  'Every vacuum choice sets the scalar and tensor mode at the start of the integration to a normalised positive-frequency solution: the conformal-mode and Hamiltonian-diagonalisation vacua for the rescaled mode function, the renormalised-stress-tensor vacuum for the perturbation itself. This holds for either time variable and uses only background values at the start of the integration.',
  ['inputs', 'configurations'], 'every background, wavenumber, vacuum choice, mode type and time variable',
  'Tests compare final spectra of different vacua loosely; phase or derivative errors mostly average out there.',
  PERT, [('vacuum initial conditions', 'primpy/perturbations.py get_vacuum_ic_*')],
  'abstract interpretation to value numbers; formal Lie derivative along the background flow; GVN',
  'Exact up to value-number equality.')
p('C31', 'Mode pipeline: integrations, matching and power agree for every mode',
  'For every requested wavenumber, vacuum and time variable, the two independent solutions of the scalar and of the tensor mode are integrated with that mode\'s own coefficients from inside the horizon by the requested factor to outside it by the requested factor, over at least ten e-folds. The reported power is |a y1 + b y2|^2 k^3/(2 pi^2), twice that for tensors, with a and b matched to the requested vacuum at the start, and lands in the slot of its wavenumber, mode and vacuum. Modes that do not exist in a closed universe are dropped for every requested vacuum.',
  ['inputs', 'configurations'], 'every wavenumber or array of wavenumbers, vacuum set, range factor, dense-output request and background',
  'Tests look at smooth spectra for one vacuum and default factors; a mix-up of solutions, slots or ranges largely cancels there.',
  PERT + ['primpy/oscode_solver.py'], [('mode pipeline', 'primpy/oscode_solver.py solve_oscode; primpy/perturbations.py')],
  'abstract interpretation with a recorded integrator stub over all trace partitions; GVN of arguments and results',
  'The integrator itself is opaque; its accuracy is out of scope.')

CAL = ['primpy/inflation.py', 'primpy/reheating.py', 'primpy/parameters.py', 'primpy/units.py']
p('C19', 'Reheating quantities obey energy and entropy conservation however calibrated',
  'For every accepted combination of calibration arguments in flat, open and closed universes, the reported energy density at the end of reheating, its duration, its equation of state and the reheating-agnostic correction satisfy dilution of the end-of-inflation energy and entropy conservation up to today, agree between GeV and Planck units, and keep requested values. Quantities that the arguments leave undetermined are reported as NaN together.',
  ['inputs', 'configurations'], 'every accepted combination of calibration arguments and every value of them, every background',
  'Tests cover a handful of argument combinations, mostly instant reheating, where the distinguishing terms vanish.',
  CAL, [('calibration branches', 'primpy/inflation.py calibrate_scale_factor')],
  'abstract interpretation of all calibration calls over trace partitions; GVN against energy and entropy relations',
  'Physical constants are recomputed from the CODATA values independently of the package units.')
p('C20', 'All e-fold labels share one offset and differences are the reported durations',
  'After every accepted calibration, the calibrated e-fold numbers (whole solution, beginning and end of inflation, horizon crossing, end of reheating) are the uncalibrated ones plus one common offset, and the numbers of e-folds before and after horizon crossing and of reheating are differences of these. Calibration leaves the uncalibrated solution untouched, and a calibration copied from another solution copies all of its reference points.',
  ['inputs', 'configurations'], 'every accepted combination of calibration arguments, every background',
  'Tests compare few of the labels on few configurations.',
  CAL, [('bookkeeping of e-folds', 'primpy/inflation.py calibrate_scale_factor')],
  'abstract interpretation of all calibration calls over trace partitions; GVN', 'Exhaustive over argument combinations.')
p('C21', 'Wavenumbers, scale factor and pivot crossing are mutually consistent',
  'After every accepted calibration the comoving wavenumbers are aH divided by the scale factor today, restricted to the inflating stretch, the pivot scale crosses the horizon at the reported crossing point, the comoving horizon is the inverse of the wavenumber, and curvature today, Hubble parameter and scale factor today agree. The crossing is looked up along the background solution itself.',
  ['inputs', 'configurations'], 'every accepted combination of calibration arguments, every background',
  'Tests check selected relations at loose tolerance for a few models.',
  CAL, [('wavenumber calibration', 'primpy/inflation.py calibrate_scale_factor')],
  'abstract interpretation of all calibration calls over trace partitions; GVN; structural matching of interpolations',
  'Interpolation accuracy is out of scope; what is interpolated over what is decided.')
p('C22', 'Calibration accepts and rejects exactly the documented argument sets',
  'For every way to call the calibration (which arguments are given, which method, flat, open or closed) the call is accepted exactly when the arguments are complete, consistent and physical, and otherwise fails with the error class documented for the problem. Inconsistent curvature, missing Hubble parameter, negative reheating durations, over- or underdetermined reheating, mismatching backgrounds, unknown methods and pivot scales that never crossed the horizon during inflation are never accepted silently.',
  ['inputs', 'configurations'], 'every combination and value of calibration arguments',
  'Tests try a dozen invalid calls; guards hold for all argument values.',
  CAL, [('argument validation', 'primpy/inflation.py calibrate_scale_factor'), ('instant reheating rule', 'primpy/reheating.py')],
  'abstract interpretation of all calibration calls over trace partitions; path conditions compared with a decision table by random interpretation',
  'Every path of every configuration is compared with the decision table at sampled argument valuations satisfying the path.')
p('C23', 'Recalibrating leaves nothing behind from an earlier calibration',
  'After every accepted calibration, everything the solution reports (reference points, reheating, wavenumbers, spectral indices, and the approximate spectra of every method and order) depends only on the background and the arguments of that call, never on an earlier calibration of the same solution. A calibration copied from another solution replaces all reference points and reheating quantities (it does not derive spectra).',
  ['histories', 'configurations'], 'every sequence of two calibrations with any arguments, every spectrum query',
  'Tests calibrate fresh solutions, and stale caches only show for particular sequences of calls.',
  CAL, [('in-place update of the solution', 'primpy/inflation.py calibrate_scale_factor'), ('cached spectra', 'P_s_approx, P_t_approx')],
  'taint analysis by abstract interpretation: results of an earlier calibration are sentinels, tracked through all paths',
  'The set of attributes is collected from the current source, not listed.')
p('C24', 'Instant reheating is recognised exactly and contradictions are rejected',
  'Reheating counts as instant exactly when no number of e-folds is requested and either no reheating parameter is given or only instant ones are (equation of state 1/3, zero duration, zero correction). Instant parameters mixed with non-instant ones are rejected, and zero is never mistaken for a missing parameter.',
  ['inputs', 'configurations'], 'every pattern of given parameters and every value',
  'Tests try selected combinations.',
  ['primpy/reheating.py'], [('is_instant_reheating', 'primpy/reheating.py')],
  'abstract interpretation over all argument patterns; path conditions compared with a truth table by random interpretation', 'Exhaustive over 32 argument patterns.')
p('C25', 'Setting the spectral index ends in the state of a plain calibration at the root',
  'Requesting a spectral index searches, within the requested range and with the options given to the root finder, for a zero of the difference between the spectral index of the calibrated solution and the target, and leaves exactly the state of a plain calibration at the root found, including the requested reheating density. Targets that the two ends of the range do not enclose and curved universes are rejected.',
  ['inputs', 'histories', 'configurations'], 'every target, range, option and background',
  'Tests set one or two target values on one model.',
  CAL, [('set_ns', 'primpy/inflation.py')],
  'abstract interpretation with a recorded root finder; GVN of the searched function and of the final state',
  'Convergence of the root finder is out of scope.')
APX = ['primpy/inflation.py', 'primpy/efolds/inflation.py', 'primpy/time/inflation.py', 'primpy/equations.py']
p('C26', 'Slow-roll spectra of all methods agree to the order each claims',
  'Expanded in Hubble-flow parameters along an exact background, all approximations (methods and orders) of the scalar and of the tensor spectrum reduce to the standard slow-roll amplitude and agree with each other at horizon crossing up to the lower of the two orders they claim. Approximations expanded about a pivot do not depend, to that order, on which point is taken as the pivot. In curved universes the spectra do not depend on the time variable of the background, and exactly the points where both spectra are positive are used.',
  ['inputs', 'configurations'], 'every background, method, order, wavenumber and curvature',
  'Tests compare methods within percent on a few models, where errors in second- and third-order coefficients stay invisible.',
  APX, [('approximations CGS, LLMS, STE, ARBDS', 'primpy/inflation.py derive_approx_power_*')],
  'abstract interpretation to closed forms; substitution of the exact background ladder; asymptotic order comparison of value numbers',
  'The fourth flow parameter is taken as zero where one method leaves it out by its own admission (TODO in the source).')
p('C27', 'Amplitudes, tilts, runnings and r are derivatives of the selected spectrum',
  'After calibrating with any approximation (method, order, spline options), the reported scalar and tensor amplitudes, tilts and runnings and the tensor-to-scalar ratio are the values and successive derivatives with respect to log wavenumber, at the pivot scale, of the selected approximation of the respective spectrum, splined over the calibrated wavenumbers with the requested options.',
  ['inputs', 'configurations'], 'every background, method, order, curvature and set of spline options',
  'Tests check a few numbers for the default method; a swapped method, order, spectrum or derivative gives similar numbers.',
  APX, [('spectral parameters', 'primpy/inflation.py derive_approx_power')],
  'abstract interpretation over all methods, orders and options; GVN of reported numbers against spline derivatives',
  'Documented methods only; spline accuracy is out of scope.')
p('C28', 'Spectrum queries return what was asked for, whatever was derived before',
  'A query for the approximate scalar or tensor spectrum returns the spectrum of the requested type, method and order of the current calibration at the requested wavenumbers, whichever approximation the calibration had derived or earlier queries asked for. Queries leave the reported spectral parameters unchanged.',
  ['inputs', 'histories', 'configurations'], 'every sequence of one calibration and several queries over all methods and orders',
  'Tests query mostly the approximation that has just been derived.',
  APX, [('queries', 'primpy/inflation.py P_s_approx, P_t_approx')],
  'abstract interpretation over all pairs of derived and requested approximations; GVN', 'Exhaustive over pairs of approximations.')
EVF = ['primpy/events.py']
p('C14', 'Events fire exactly where, and in the direction, they say',
  'Every event function of the integration vanishes exactly where the tracked condition is met (edge of inflation, equation of state, time, e-folds, field value, vanishing Hubble rate, horizon exit of a mode) and has the sign that makes its direction mean what the documentation says. Its direction and terminal flag are what was asked for, its name tells it from the other events, and the initial moment named to an inflation event is not reported as a transition.',
  ['inputs', 'configurations'], 'every event class, equation set, state, direction and terminal flag',
  'Tests integrate a few trajectories in one direction each; a flipped sign or shared name shows only for particular direction/terminal combinations.',
  EVF, [('event functions', 'primpy/events.py __call__'), ('event names', 'primpy/events.py constructors')],
  'abstract interpretation of event functions; sign comparison next to the root by random interpretation; enumeration of names',
  'Root location within a step is the integrator\'s business and trusted.')
p('C15', 'Start and end of inflation are those of the tracked transitions',
  'After an integration, the reported start and end of inflation are the tracked transitions into and out of inflation (the first point when integration starts inflating), with the field, clock, Hubble rate, scale and potential at them evaluated there. When a transition was not tracked or not found the quantities are NaN and the matching warning is given, and the inflating stretch used for spectra lies strictly between start and end.',
  ['inputs', 'configurations', 'histories'], 'both independent variables, every curvature, every combination of tracked and found events, both inflating and not at the ends',
  'Tests track the usual two events on successful runs; missing, repeated and one-sided events appear in few of them.',
  ['primpy/inflation.py', 'primpy/time/inflation.py', 'primpy/efolds/inflation.py', 'primpy/exceptionhandling.py'],
  [('post-processing of the integration result', 'primpy/inflation.py InflationEquations.sol, postprocessing_inflation_start, postprocessing_inflation_end')],
  'abstract interpretation of the post-processing over trace partitions; decision table by random interpretation; GVN',
  'The integration result itself is opaque.')
p('C16', 'Solving passes everything on and labels every result correctly',
  'Solving a background hands the right-hand side of its equations, the range and initial state prepared by the initial conditions, the requested evaluation points, the events and all solver options unchanged to the integrator. In the result every state variable and every event is found under its own name with exactly its own values, independent of the set and order of tracked variables and events.',
  ['inputs', 'configurations'], 'every equation set (tracked variables), initial condition type, list of events and solver options',
  'Tests use two or three events and default options.',
  ['primpy/solver.py', 'primpy/equations.py', 'primpy/inflation.py'], [('solve', 'primpy/solver.py'), ('naming of columns and events', 'primpy/equations.py Equations.sol')],
  'abstract interpretation with a recorded integrator; identity of arguments and results', 'The integrator is an opaque recorded call.')
ICF = ['primpy/initialconditions.py']
p('C17', 'Initial conditions are consistent states of the requested universe',
  'For every way to specify initial conditions, the initial state satisfies the Friedmann equation with the requested curvature parameter or e-fold number, and field, velocity and clocks sit in the components the equations read them from. Slow-roll initial conditions start on the slow-roll attractor, inflation-start conditions exactly at the onset of inflation, and specifications that are incomplete, contradictory or physically impossible are rejected with the documented error.',
  ['inputs', 'configurations'], 'every initial-condition class, curvature, time variable, specification, tracked conformal time',
  'Tests sample a few numbers per class, mostly for one time variable.',
  ICF, [('initial state construction', 'primpy/initialconditions.py SlowRollIC, InflationStartIC, ...')],
  'abstract interpretation over all configurations and trace partitions; GVN of the initial state in the equations; decision table', 'Potential is opaque; curvature and all inputs symbolic.')
p('C18', 'Shooting for a number of e-folds ends in the start that yields it',
  'Initial conditions specified by a number of e-folds (total, or after horizon crossing of the pivot scale) search the requested field range for the root of the obtained minus the requested number, each trial being an inflation-start integration with the same specification, solver options and integration method as the solution itself. Trials that cannot start, collapse or fall short count as too few e-folds and trials that exceed the limit as too many, and the resulting initial conditions are those of the inflation start at the root.',
  ['inputs', 'configurations', 'histories'], 'every shooting class, curvature, time variable, specification, outcome of every trial',
  'Tests run a few successful searches; outcomes of failing trials hardly occur in them.',
  ICF, [('shooting', 'primpy/initialconditions.py ISIC_Nt, ISIC_NsOk')],
  'abstract interpretation with recorded root finder and integrator; GVN of trial states, trial values and final state', 'Root finder convergence is out of scope.')
BBF = ['primpy/bigbang.py', 'primpy/units.py', 'primpy/parameters.py']
p('C32', 'Standard cosmology is the same in every system of units',
  'The Hubble rate and scale factor today and the comoving Hubble horizon at any time agree between all supported unit systems (Planck, SI, km/s/Mpc or Mpc), the scale factor today being the curvature radius (one in flat universes) and nucleosynthesis at its documented redshift. Units that do not exist are rejected.',
  ['inputs', 'configurations'], 'every unit, Hubble parameter, curvature, density and time',
  'Tests compare some conversions at four Hubble parameters, the comoving horizon only for not failing.',
  BBF, [('unit branches', 'primpy/bigbang.py get_H0, get_a0, comoving_Hubble_horizon')],
  'abstract interpretation over trace partitions; GVN against an independent set of units', 'Constants of nature are symbolic.')
p('C33', 'Standard cosmology obeys its Friedmann equation and refuses impossible fates',
  'The Hubble rate of the standard cosmology satisfies the Friedmann equation with radiation from the laws of black-body radiation, matter, curvature and a cosmological constant that add up to one today, each diluting at its own rate. Universes that never had a Big Bang are refused, exactly those that recollapse come with a warning, and the effective equation of state of reheating computed from the change of the comoving Hubble horizon is the one that produces this change.',
  ['inputs', 'configurations'], 'every density, curvature, Hubble parameter, time and unit',
  'Tests only check that calls succeed, and two of the failures.',
  BBF, [('Hubble_parameter, get_Omega_r0, get_w_delta_reh', 'primpy/bigbang.py')],
  'abstract interpretation over trace partitions; decision table from the roots of the Friedmann equation; GVN',
  'Which universes bounce or recollapse is decided at a grid of densities on both sides of the boundaries.')
p('C34', 'Conformal time after inflation integrates the right history',
  'Conformal time of the standard cosmology is the integral of the inverse comoving Hubble rate over e-folds between the given limits, for a single time and element by element for an array of times. The conformal time ratio compares all conformal time before the end of inflation (optionally including a backward solution) to that from there until today, both in terms of the calibrated scale factor, so that it does not depend on the arbitrary normalisation with which a flat universe was integrated.',
  ['inputs', 'configurations'], 'every time, density, curvature and pair of solutions',
  'Tests only check late-time convergence and the sign of an inequality.',
  BBF, [('conformal_time, conformal_time_ratio', 'primpy/bigbang.py')],
  'abstract interpretation with a recorded quadrature; identity of limits; GVN of the integrand', 'Accuracy of the quadrature is out of scope.')
p('C35', 'Dividing lines between cosmic fates are double zeros of the Hubble rate',
  'For every matter density the reported dividing lines (Big Bang or none, expansion or recollapse) are the cosmological constants for which the Hubble rate has a double zero in the past or in the future, or zero where recollapse needs a negative one. Negative matter densities are rejected.',
  ['inputs'], 'every matter density, including the changes of branch', 'Tests check three trivial points.',
  ['primpy/bigbang.py'], [('no_Big_Bang_line, expand_recollapse_line', 'primpy/bigbang.py')],
  'abstract interpretation over trace partitions; double-root condition of the Friedmann equation by random interpretation', 'Decided at a grid of densities on every branch.')
p('C08', 'Evaluating equations, potentials and events has no memory',
  'Every quantity of a background state, of a potential and of an event is a function of its arguments and of the parameters its object was built with: it equals what a freshly built object gives, whatever states were evaluated before, in whatever order, next to whatever other objects, and even if two states differ in a single component. The arguments are not modified.',
  ['histories', 'inputs'], 'sequences of evaluations over all states', 'Tests build a fresh object per case and evaluate few states; a stale cache shows only in a sequence.',
  ['primpy/equations.py', 'primpy/inflation.py', 'primpy/time/inflation.py', 'primpy/efolds/inflation.py', 'primpy/events.py', 'primpy/potentials.py'], [('evaluation of equations, potentials, events', 'primpy/equations.py')],
  'abstract interpretation of evaluation sequences from the state after import, two-run comparison by value numbering', 'Sequences A, B, A of two generic states after other objects were used; caches at instance, class, module, closure and default-argument level are modelled.')
p('C36', 'Errors and warnings form catchable families and keep what they are told',
  'Every error of the package is caught by its base error and every warning by its base warning, neither belongs to the other family, and each can be built from any message, which its text contains. Warnings about an undetermined start or end of inflation say that the event was not tracked exactly when it was not, and that inflation continues exactly when the equation of state is below -1/3.',
  ['configurations', 'inputs'], 'every class, every set of tracked events', 'Tests check only that a warning is raised somewhere.',
  ['primpy/exceptionhandling.py'], [('exception and warning classes', 'primpy/exceptionhandling.py')],
  'class hierarchy analysis and abstract interpretation of constructors over all cases', 'All subsets of the tracked events; equation of state at the boundary.')
p('C39', 'Units, constants and radiation parameters are mutually consistent',
  'The reduced Planck mass, length, time and temperature in SI and in GeV, the radiation constant, the temperatures, densities and degrees of freedom of photons and neutrinos and the pivot scale follow from the constants of nature and the documented values through their defining relations.',
  ['inputs'], 'every constant, as identities in symbolic constants of nature', 'A wrong power or factor in a unit rarely used by tests stays unnoticed.',
  ['primpy/units.py', 'primpy/parameters.py'], [('units', 'primpy/units.py'), ('parameters', 'primpy/parameters.py')],
  'constant propagation to value numbers compared by random interpretation with independent formulas', 'Identities in symbolic c, hbar, G, k_B, e and parsec.')
p('C37', 'Power-law and feature spectra for samplers follow their formulas for all inputs',
  'For every subset of the declared parameters the scalar and tensor spectra are the documented power laws (with runnings and, for feature models, modulation by oscillations or a cutoff) at every wavenumber of a grid that is regular in log(k) between the declared limits, with missing parameters at neutral values, and a missing tensor tilt set by the inflationary consistency relation. Contradicting parameters are rejected, and without features all models agree.',
  ['inputs', 'configurations'], 'every subset of parameters and all their values', 'No test covers the wrapper; combinations of optional parameters are too many to sample.',
  ['cobaya_wrapper/powerlaw_pps.py', 'cobaya_wrapper/feature_pps.py'], [('calculate', 'cobaya_wrapper/powerlaw_pps.py'), ('calculate of the feature models', 'cobaya_wrapper/feature_pps.py')],
  'abstract interpretation over trace partitions for every subset of parameters, random interpretation against closed forms', 'Quick: parameter subsets with runnings given together; thorough: all 2^7 subsets times feature parameters.')
p('C38', 'The slow-roll theory returns exactly the background that meets the amplitude',
  'For every combination of parameters the amplitude of the potential is iterated with the predicted scaling until the primordial amplitude is met, each trial is calibrated by the method that the given parameters imply, and spectra and derived parameters are those of the accepted background. Failure of integration, of the iteration, and unrealistic reheating are reported as errors of the package, while realistic or unspecified reheating is accepted, and every model uses the potential it is named after.',
  ['inputs', 'configurations', 'histories'], 'every combination of parameters, number of trials and outcome of each trial', 'No test covers the wrapper; it needs a sampler to run.',
  ['cobaya_wrapper/slowroll_pps.py'], [('calculate', 'cobaya_wrapper/slowroll_pps.py')],
  'abstract interpretation over trace partitions with recording stand-ins for potential and solver, random interpretation', 'Up to 11 trials; stand-in backgrounds have independent symbolic attributes.')


def na(pid, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason, anchors={}))


NA = []
na('C40', 'Background integration is accurate to the requested tolerance',
   'The numerical background satisfies the Friedmann constraint and the Klein-Gordon equation to the requested tolerance over the whole interval, and forward and backward integration agree.',
   ['inputs'], 'every model and initial condition', 'Tests sample a few models.', ['primpy/solver.py'], [('adaptive Runge-Kutta integration (scipy)', 'primpy/solver.py solve')],
   'The error depends on run-time step control inside scipy and on stiffness of the particular model; no sound static argument bounds it. Statically decided instead: the right-hand sides and constraints are exact (C09-C12) and options reach the integrator (C16).')
na('C41', 'Mode integration agrees with the exact mode functions',
   'Numerically integrated primordial spectra converge to the exact mode functions where those are known, such as power-law inflation or de Sitter space.',
   ['inputs'], 'every wavenumber', 'Tests compare few spectra at loose tolerance.', ['primpy/solver.py', 'primpy/perturbations.py'], [('oscillatory integration (pyoscode)', 'primpy/solver.py solve_oscode')],
   'Accuracy of an external compiled integrator on sampled coefficients is a run-time quantity. Statically decided instead: frequency, damping, initial conditions and the assembly of spectra (C29-C31).')
na('C42', 'Slow-roll spectra approach the numerical spectra as slow roll improves',
   'The difference between approximate and numerical power spectra vanishes at the stated order in the slow-roll parameters.',
   ['inputs'], 'every model', 'Tests compare at a single tolerance.', ['primpy/inflation.py'], [('slow-roll approximations', 'primpy/inflation.py P_s_approx')],
   'Needs bounds on solutions of differential equations, out of reach of static analysis. Statically decided instead: all approximation orders are mutually consistent and consistent with the flow equations (C26-C28).')
na('C43', 'Root searches converge to the intended root',
   'Bracketed and derivative-based searches for field values, amplitudes and initial conditions terminate at a root for every parameter choice.',
   ['inputs'], 'every parameter value', 'Tests sample parameters.', ['primpy/potentials.py', 'primpy/initialconditions.py'], [('scipy.optimize.root_scalar', 'primpy/potentials.py')],
   'Convergence depends on values at run time. Statically decided instead: the searched function vanishes exactly at the intended value, and brackets, start values and the returned root are the right ones (C03-C06, C18).')
na('C44', 'Interpolated derived quantities are close to the exact ones between samples',
   'Quantities that are interpolated between stored points, such as field and expansion history as functions of e-folds, stay within a bound of the exact solution.',
   ['inputs'], 'every sampling', 'Tests use dense samples.', ['primpy/inflation.py'], [('interpolation of solutions', 'primpy/inflation.py')],
   'The interpolation error depends on the sampling at run time. Statically decided instead: which quantities are interpolated against which and over which part of the history (C13, C19-C27).')
