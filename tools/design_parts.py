HEAD = '''# Design: solver-based checking of gym-electric-motor

## The technique

Every check is a bounded symbolic execution of the *real* Python code in /repo/src. Nothing is translated by hand and nothing is
cached: a run imports the packages from /repo's working tree (or from $VERIF_REPO) and executes them on proxy values.

* **Values** (`symex/core.py`). A `Sym` is a polynomial with rational coefficients over atoms. Atoms are the inputs of a harness
  (a real or integer with its interval) and the results of non-polynomial operations (division, square root, sin/cos, atan2, abs,
  min/max/clip, modulo, if-then-else), each with its defining constraints: `1/x` is `q` with `q*x == 1` and a separate feasibility query for
  `x == 0`, `sin`/`cos` of the same linear argument are a pair with `s^2 + c^2 == 1` (sums of angles are expanded by the addition theorems,
  equal arguments share atoms), and so on. Floating constants are read as the rational they denote (decimal rationals).
* **Execution** (`symex/engine.py`). A comparison of proxies gives a `SymBool`; when Python asks for its truth value the run forks. The engine
  re-executes the harness along decision prefixes, depth first, and asks z3 which branches are feasible on the present path. All
  feasible paths are explored. Discrete inputs (actions, switching states, histories of operations, flags) are forked the same way.
* **numpy and friends** (`symex/shim.py`). While a symbolic run is active, the module globals of the code under test see stand-ins for
  `numpy`/`math` functions that only change *storage* (float arrays become object arrays) and give min/max/clip/sign/isclose/... their exact
  branch-free meaning. The stand-ins are validated against the real functions on every run (see concrete validation below).
* **Claims.** `ctx.eq/le/check` turn a property into an assertion over the proxies. A claim is *discharged* if the polynomial difference is
  identically zero, if a linear relaxation (each monomial a variable within its interval; also after clearing denominators) refutes its
  negation, or if z3 (QF_NRA, then the general solver) reports *unsat* for path condition + atom definitions + negation. Before that the
  path condition is restricted to the cone of influence of the claim (sound for unsat).
* **Counterexamples.** If the solver answers *sat*, a model is extracted (first with a margin, so that rounding cannot matter) and the same harness is
  run with plain floats on the **unpatched** real code (`ConcreteCtx`). Only a failure that reproduces there is reported as VIOLATION, with the
  inputs in evidence/replays/*.json (`./check.sh ID --replay FILE` runs it again). A model that does not reproduce makes the claim
  *undecided*: it is printed and counted in the evidence, never turned into an alarm, and never counted as discharged. On the unchanged
  tree no claim of any quick check is undecided.
* **Exceptions** escaping the code under test count as violations if they reproduce on the unpatched code; so do NaN results where a number is
  claimed.
* **Vacuity.** Each completed path gets a reachability query (a model of its path condition); paths whose assumptions are contradictory
  are dropped and counted as aborted. The first path models of each case are re-run concretely on the unpatched code and
  all observed values compared with the symbolic ones evaluated at the model (`validated` / `mismatched` in the evidence). The remaining
  mismatches on the clean tree are atan2/modulo boundary cases and stand-ins of scipy functions and are listed as notes.
* **Evidence** (evidence/ID.json): functions of /repo encoded (recorded by a tracer: file, function), cases, paths, branches, forks, claims, queries, discharged,
  undecided, solver time, validated path models, bounds and assumptions.

Harness modules (`harness/cNN.py`) contain per property the inputs with their bounds and an *independent description* of what has to
happen (circuit equations, switching tables, transformation formulas, recursion of the documented law) or a second run of the real code to
compare with (self-composition: reset vs. new instance, with vs. without other instances, seeded vs. seeded).

**What "holds" means.** Level `model_checking` (bounded): for all real values in the stated boxes and all histories of the stated length. The
arithmetic is exact real arithmetic; rounding errors, overflow and the internals of numpy, scipy and gymnasium are outside. Comparison
tolerances (1e-7 unless stated) absorb that decimal constants of the code are rounded doubles. Claims within the tolerance band of a
comparison of times (e.g. exactly at a switching instant) are excluded by stated assumptions.

**Random numbers** (`harness/rng.py`). Draws are inputs: numpy generators are replaced by generators that return a fresh symbolic value within the
distribution's range *per stream position*; python's/numpy's global functions and scipy's truncnorm return values that are *not* reproducible by a seed.
So a claim holds for every random outcome, and reproducibility becomes equality of terms.

**Robustness against refactoring.** Harnesses use constructors, public methods/properties and documented names; private attributes are only used
where the public interface cannot set up a situation. There is no comparison with source text or stored outputs.

**Cost.** All 39 quick checks together take about 17 minutes wall time on 8 cores (the slowest, C32, about 135 s; most below 10 s); thorough runs deepen
histories and add combinations (up to the 900 s budget).

**No hooks** in /repo. C31 was a property about plots in an early draft; plots are outside what this technique can decide observably, it was dropped before anything was claimed.
No property is listed as not applicable.
'''

METHOD = {
"C01": "Every converter class (finite, continuous, multi) plays up to two actions, forked over all discrete or arbitrary continuous values; convert() is queried at an arbitrary instant with arbitrary currents. Claims: length of the result and both ends of `converter.voltages.low/high` as two inequality queries per output.",
"C02": "Oracle: the switching table of each half bridge (1QC, 2QC, both legs of the 4QC, three legs of the B6) written in the harness; dead time iff the leg's state changed and the query instant is before its end; the freewheeling potential is a case distinction on the sign of that leg's current.",
"C03": "Oracle: duty cycle formula per converter with saturation; with interlocking, |deviation| = til/tau with the sign of the leg current.",
"C04": "Product claims u_out*i_out == u_sup(=1)*i_sup per path; for finite converters in the dead time the potential actually output decides. Multi converters: sum of the parts.",
"C05": "Self-composition: the multi converter and its parts built separately get the slices of one arbitrary action and current vector; outputs, supply current, reset and the union of switching instants are compared.",
"C06": "Self-composition: a used and reset converter against a new one; a converter whose tau was set later against one constructed with that tau.",
"C07": "Instants are terms in the arbitrary start time and interlocking time: strictly increasing, last equals t + tau; number of instants against the independent dead-time predicate; voltages at two arbitrary instants between consecutive ones are equal.",
"C08": "t_23/t_32/q/q_inv and the physical systems' transformations on arbitrary vectors and angles (sin/cos pairs, addition theorems); array arguments compared before/after.",
"C09": "Complete drives (all three-phase types, finite and continuous, with/without interlocking) with an arbitrary motor state and *arbitrary solver result* (the ODE solver is a stand-in returning fresh symbols, so the claim holds whatever is integrated); the reported state is compared with park/clarke formulas of the harness.",
"C10": "The real electrical_ode and torque of each motor with every parameter symbolic: u*i - losses - dW/dt - T*omega == 0 as polynomial identity; energy non-negative as quadratic form query.",
"C11": "The right hand sides are at most quadratic in each entry, so the central difference quotient of the *real* right hand side is the exact derivative; compared with the real Jacobian at an arbitrary state. Purity: two evaluations, arguments and earlier results compared.",
"C12": "Real constructors and reset with arbitrary constant values in all key orders, arbitrary draws for uniform/gaussian initialisers, arbitrary limits and nominal values; derived values against formulas.",
"C13": "mechanical_ode of the polynomial load: odd symmetry, sign of the load torque, standstill behaviour (piecewise: stick region), Newton's law with the total inertia.",
"C14": "Constant speed load: acceleration 0 and reset value; ExternalSpeedLoad inside a real drive with the real Euler solver: omega after each step equals the profile; Ornstein-Uhlenbeck load: every draw, bounds of omega.",
"C15": "get_voltage at arbitrary times against the wave form; RC supply against its Euler recursion; episodes after reset.",
"C16": "Euler with arbitrary polynomial right hand side against the recursion; scipy wrappers against recording stand-ins with scipy's documented interface.",
"C17": "The drive of C09: state_names, limits, nominal_state, state_space, state_positions; every entry of reset() and simulate() times its limit equals the named quantity computed by the harness from the solver's state.",
"C18": "The drive of C09 with a recording solver: number of integrations per step, end times, parameters passed (= converter voltages for the present currents times present supply voltage), time, counter, reported voltages.",
"C19": "The same recording set-up on the supply: i_sup passed to get_voltage equals converter.i_sup of the present motor currents in each segment.",
"C20": "Histories of calls to a real ElectricMotorEnvironment with stub components of arbitrary results: termination flag against the merged degree; exceptions before reset / after termination / after exchanging components; number of simulate calls.",
"C21": "Real environment and real reference generators, recording reward function and visualization: reference passed to the reward of step k+1 equals the reference part of observation k.",
"C22": "Every ordered selection of states on a real environment around a stub or real drive.",
"C23": "LimitConstraint/SquaredConstraint/ConstraintMonitor with arbitrary states and degrees; the violated predicate is compared as Boolean equivalence.",
"C24": "WeightedSumOfErrors with arbitrary states/references/weights: range, maximum, monotonicity (two executions with ordered errors), blend.",
"C25": "Each generator produces references from arbitrary draws; each value is claimed inside the margins; entries without reference are zero.",
"C26": "Reference index bookkeeping through arbitrary sub-episode lengths; the parts of composed generators are recorded and compared.",
"C27": "FIFO oracle over arbitrary action sequences including array reuse.",
"C28": "The wrapper's phase action, viewed at epsilon + p*omega*tau*(dead_time + 1/2), equals the command (trigonometric identity query).",
"C29": "Each wrapper and stacks of wrappers around a stub drive with arbitrary states: value of the new quantity and equality of all others, metadata lengths.",
"C30": "Recursion of the rotor flux equation in the harness, compared for every input sequence.",
"C32": "Self-composition: two instances, same seed, different pasts and different foreign draws; every output must be the same term.",
"C33": "Self-composition: probe of an instance before/after others were created/used, and of a later instance; user containers deep-copied and compared.",
"C34": "Against min/max and the vector-length law; flags as Boolean equivalence.",
"C35": "Three steps of every base controller against the discrete law with arbitrary clipping pattern; tuned gains against the symmetrical optimum formulas.",
"C36": "Voltage with feedforward put into the *motor's real ODE*: the result must not depend on the speed (two speeds, same derivative).",
"C37": "Input/output stages with arbitrary limits and values; discrete stages: membership in the action space and direction of the voltage that the *real converter* then outputs.",
"C38": "DC machines: the selected current put into the motor's real torque equation. Three-phase machines: root finder and table lookups are replaced by an arbitrary root/arbitrary entries satisfying the table properties which are themselves checked on the real tables (cases tables-* are concrete lemmas about finite tables, stated as such).",
"C39": "gem_controllers made and tuned by the real code for real environments; control() on arbitrary observations/references, two steps; membership in the action space; used+reset vs. new.",
"C40": "All specification forms of set_state_array / update_parameter_dict / initialize / state filters against one expansion.",
}

OUTSIDE = {
"C02": "the converter's own tolerance band around the end of the dead time",
"C14": "ExternalSpeedLoad with other solvers or several sub-steps (the load's documented approximation); the extra factor tau in the drift of the Ornstein-Uhlenbeck load is not judged (no document states the discretisation)",
"C15": "range of the RC supply for generator operation (it is a physical circuit and can exceed its nominal voltage)",
"C16": "scipy's integration accuracy",
"C17": "floating point saturation",
"C18": "EESM with control_space='dq' (the option is ignored there; not documented as supported)",
"C25": "scipy.signal.sawtooth is used by its contract",
"C28": "accuracy of the angle prediction for accelerating drives",
"C32": "processes with other numpy versions",
"C33": "plot windows (should_plot option); AC controllers are probed around one working point",
"C35": "other tuning methods than the symmetrical optimum",
"C36": "finite control sets",
"C38": "accuracy of numpy.roots and of interpolation inside the tables; finite tables are those of the default machines",
"C39": "finite control sets of three-phase machines (the stage to_b6_discrete is not implemented) and of the EESM (shape mismatch), DFIM (no controller)",
}

SEEDNOTES = {}

TAIL = '''
## Statements narrowed because the code was right

Where a first wording was stronger than what the code documents, the statement (not the check) carries the restriction, so that it stays exact:

- C14: the externally profiled speed is exact for one Euler step per tau (the profile acts through its derivative).
- C15: the range of the RC supply holds for load currents between zero and the short circuit current only (in generator operation a real RC circuit leaves it).
- C36: at standstill the exact EESM decoupling keeps a cross term that does not depend on the speed.
- C04: continuous converters with interlocking time use an averaged dead-time model; the power balance is claimed without interlocking.
- C12: nominal <= limit for derived values is claimed when it holds for the given ones.
- Engine: models at rounding boundaries, table stand-ins or saturating angles that do not reproduce on the real code are never reported.

## Engine weaknesses found with planted bugs

- A claim that failed before a later `assume` on an input drawn afterwards did not replay (the assumption aborted the run): found with a bug in
  FiniteFourQuadrantConverter.tau. Replays now keep failures recorded before an abort; small quantities (times) get smaller margins.
- A replay that runs inside a symbolic run could receive symbolic values through stand-ins that were still installed (scipy's sawtooth in C25, C26, C32)
  and then reported nonsense as confirmed. A symbolic value that reaches a concrete run is now a harness fault and nothing is concluded from it;
  `SYMEX_NEST=1 ./check.sh ID` repeats every concrete run within symbolic runs as a self test (clean for all checks).
- Fixed numbers in a harness hide bugs at special values: a power of a violation degree instead of the square was invisible in C23 with limits of one.
  Limits, margins, step sizes and pole pairs are symbolic where the code does arithmetic with them.
- The sawtooth stand-in is a function of its arguments as written; two calls with different expressions that have equal values in a model may get different
  values in the symbolic run and the same value in the concrete one. This shows as `mismatch` in C32 and C33 (validation only, no verdict depends on it).

## Seen, outside the claimed properties

- Finite-control-set AC controllers raise NotImplementedError in the output stage; DFIM controllers do not exist.
- Wrapped environments need env.unwrapped with gymnasium 1.x; the class attribute ElectricMotorEnvironment.workspace is unused; a physical system given as a type cannot be used (sim.tau is read first).
- The controllers never see the converter's dead time; the SCIM current gains use the rotor time constant.
- User given `initial_limits` of induction machines are overwritten; non-zero initial induction fluxes together with a load speed are rejected.
- StateNoiseProcessor adds noise in place to the array returned by the inner system (fresh in all real systems).
- The bounds of the flux observer's state_space are in psi units (pinned by tests).
'''
