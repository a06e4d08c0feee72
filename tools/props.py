"""The properties (source of properties.jsonl and of the MANIFEST)."""
G = "src/gym_electric_motor/"
GC = "src/gem_controllers/"
PS = G + "physical_systems/"
CONV = PS + "converters.py"
SYS = PS + "physical_systems.py"
MOT = PS + "electric_motors/"
LOAD = PS + "mechanical_loads/"
SUP = PS + "voltage_supplies.py"
SOL = PS + "solvers.py"
CORE = G + "core.py"
WR = G + "physical_system_wrappers/"
RG = G + "reference_generators/"
RW = G + "reward_functions/weighted_sum_of_errors.py"
ST = GC + "stages/"

P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


p("C01", "Converter output voltages stay inside the declared voltage range",
  "Whatever action, current, interlocking time and query instant, every output voltage of every converter lies inside the voltage range the converter declares, with one value per declared output. Half bridges of a B6 bridge never exceed half the supply voltage against the midpoint. This also holds directly after a reset and for actions beyond the action range, which saturate.",
  ["inputs", "histories"], "all actions, currents, interlocking times, query instants and two-action histories, for all eight converter types and multi-converter combinations",
  "tests compare a handful of action/current pairs with recorded numbers; the range claim is over all of them",
  [CONV], [("convert() of every converter", CONV), ("declared voltage boxes", CONV)])
p("C02", "Finite converters apply the commanded switching state outside the dead time",
  "Outside the dead time every half bridge of a finite converter outputs exactly the potential its discrete action documents. During the dead time after a change of a half bridge, and only then, both transistors are off and the potential follows the sign of that half bridge's own current. A repeated action never causes a dead time.",
  ["inputs", "histories"], "all discrete actions, pairs of consecutive actions, currents, interlocking times and query instants in the step",
  "tests fix one interlocking time and a few action sequences with recorded outputs",
  [CONV], [("set_action/convert of the finite converters", CONV)])
p("C03", "Continuous converters produce the commanded mean voltage",
  "For every duty cycle in the action range a continuous converter without interlocking time outputs exactly the commanded average voltage; commands beyond the range saturate. With interlocking time every half bridge deviates by at most interlocking time over step time, in the direction given by its own current. Quadrants a converter does not own are never produced.",
  ["inputs"], "all continuous actions (also beyond the range), currents and interlocking times", "tests sample a short list of duty cycles",
  [CONV], [("continuous convert() and set_action() clipping", CONV)])
p("C04", "Converters conserve power between supply and motor side",
  "Without interlocking the supply current a converter reports times the supply voltage equals the sum of output voltage times output current, for every action and current. Supply currents of finite converters in the dead time are consistent with the potentials they output. Multi converters draw the sum of their parts.",
  ["inputs"], "all actions, currents and dead-time situations for every converter type", "tests compare i_sup with recorded numbers for a few currents",
  [CONV], [("i_sup() of every converter", CONV)])
p("C05", "Multi converters equal the independent concatenation of their parts",
  "A multi converter behaves exactly like its sub-converters side by side: spaces, reset output, voltages and switching instants are the concatenation or union, supply currents the sum. No sub-converter sees another's action or current.",
  ["inputs", "configurations"], "all actions and currents for several combinations of sub-converters, two-step histories", "tests use mocked or a single combination of sub-converters",
  [CONV], [("ContMultiConverter / FiniteMultiConverter slicing", CONV)])
p("C06", "A converter reset starts an independent episode; a new step time is honoured",
  "After a reset a converter behaves exactly like a newly constructed one, whatever was played before. When the step time of the converter is changed, all of its half bridges and sub-converters follow. Both hold for every converter and every multi converter.",
  ["histories", "inputs"], "any one-step earlier episode, any following two steps, any currents and step times", "tests check the reset return value only",
  [CONV, PS + "physical_systems.py"], [("reset() and tau of converters", CONV)])
p("C07", "Switching schedules partition the step",
  "The switching instants of a step are strictly increasing, start after the step's beginning and end exactly at its end. An extra instant appears exactly when a half bridge really has a dead time, at the end of it. Between two instants the output voltage does not change.",
  ["inputs", "histories"], "all actions, pairs of actions, interlocking times and start times", "tests check recorded switching times for one interlocking time",
  [CONV], [("set_action() switching pattern", CONV)])
p("C08", "Coordinate transformations are mutually inverse and amplitude invariant",
  "Transforming three-phase quantities with zero sum to two-phase or rotating coordinates and back returns the same quantities for every angle; rotating transformations preserve the vector length and compose over angles. Results sum to zero over the phases, and the transformations never modify the caller's arrays. The normalised-angle option means exactly angle times pi.",
  ["inputs"], "all vectors and angles", "tests evaluate a fixed list of vectors and angles with recorded values",
  [MOT + "three_phase_motor.py", SYS], [("t_23, t_32, q, q_inv and the system level helpers", MOT + "three_phase_motor.py")])
p("C09", "Reported phase, rotating-frame and angle quantities are mutually consistent",
  "In every state a three-phase drive reports, the phase currents are the rotating-frame currents viewed at the reported (or field) angle, and the rotating-frame voltages are the phase voltages viewed at the angle at which they were applied. The reported electrical angle is the integrated angle wrapped into (-pi, pi]. Commands given in rotating-frame coordinates act like the corresponding phase command at the current angle.",
  ["inputs", "histories"], "all motor states, angles, voltages and actions at reset and after a step for synchronous, externally excited, squirrel cage and doubly fed machines", "tests run the system with mocks returning constants",
  [SYS], [("simulate/reset of the three phase systems", SYS)])
p("C10", "The motor equations balance power and torque",
  "For every motor, state, voltage and speed, electrical input power equals resistive losses plus change of magnetic energy plus mechanical power, with the torque the motor reports. The speed influences the electrical equations only through induced voltage and frame rotation, and the magnetic energy of a machine is never negative.",
  ["inputs"], "all currents, fluxes, voltages, speeds for every motor type with its default and arbitrary positive parameters", "tests compare the ODE with a reimplementation on fixed numbers",
  [MOT], [("electrical_ode and torque of every motor", MOT)])
p("C11", "Jacobians match the equations, and evaluating equations has no side effects",
  "The analytic Jacobians of motors, loads and complete drives equal the derivative of the corresponding equations at every state. Evaluating an equation or Jacobian twice with the same arguments gives the same result, does not alter its arguments, and leaves results handed out earlier unchanged.",
  ["inputs", "histories"], "all states, inputs and pairs of successive evaluations", "tests compare Jacobians with recorded matrices at one point",
  [MOT, LOAD, SYS], [("electrical_jacobian, mechanical_jacobian, system jacobian", SYS)])
p("C12", "Initial motor states respect the requested values, intervals and limits",
  "A motor reset hands the configured constant initial values to the right quantities, in whatever order they are given, and random initial values lie inside the requested interval and the nominal range. Limits and nominal values that are not given are derived from the given ones (phase quantities from the amplitude and half the supply voltage, torque from the largest torque at nominal current) such that a nominal value never exceeds its limit when that holds for the given ones. User given limits and nominal values are kept.",
  ["inputs", "configurations"], "all constant initial values and all random draws", "tests sample a few initialisers with a seeded generator",
  [MOT + "electric_motor.py", MOT], [("initialize/reset of the motors", MOT + "electric_motor.py")])
p("C13", "Passive loads brake, and load torque is odd in speed",
  "The load torque of a static polynomial load always opposes the motion, is an odd function of speed, and acceleration equals net torque over total inertia. Standstill is never left through friction alone. The total inertia is the sum of load and rotor inertia.",
  ["inputs"], "all speeds, motor torques and non-negative load coefficients", "tests use recorded speeds and torques",
  [LOAD + "polynomial_static_load.py", LOAD + "mechanical_load.py"], [("static_load, mechanical_ode", LOAD + "polynomial_static_load.py")])
p("C14", "Speed-controlling loads impose their speed regardless of the motor",
  "Constant-speed and externally profiled loads let the speed follow the configured value for every torque, at reset and in every step. A random-walk load stays inside its speed range and never reports values outside it.",
  ["inputs", "histories"], "all torques, speeds, times and noise values", "tests check recorded outputs with mocked profiles",
  [LOAD], [("const_speed_load, ext_speed_load, ornstein_uhlenbeck_load", LOAD)])
p("C15", "Voltage supplies deliver their documented waveform",
  "An ideal supply always delivers its nominal voltage; AC supplies deliver a sine with the configured amplitude, frequency and phase, three phases displaced by a third of a period and summing to zero; the RC supply follows its circuit equation. The voltages of ideal and AC supplies always lie inside the declared range, that of the RC supply as long as the load current lies between zero and the short circuit current. Nothing depends on earlier episodes.",
  ["inputs", "histories"], "all times, supply currents, phases and earlier episodes", "tests check a few instants",
  [SUP], [("get_voltage/reset of the supplies", SUP)])
p("C16", "Solvers integrate exactly the requested interval",
  "The explicit Euler solver equals the documented Euler recursion with evenly spaced sub-steps, evaluated at their own times, and ends exactly at the requested time. Every solver returns and stores the same state, honours changed inputs, and reports the time it integrated to. Integrating from a restored initial value repeats the result.",
  ["inputs", "histories"], "all states, step sizes, inputs and time dependent right-hand sides (polynomial), sub-step counts 1 to 4", "tests compare on one ODE with tolerances",
  [SOL], [("EulerSolver, ScipyOdeSolver, ScipySolveIvpSolver, ScipyOdeIntSolver", SOL)])
p("C17", "Reported states are normalised in the declared order",
  "Every state a drive reports has one entry per declared name, each equal to the physical quantity of that name divided by its limit. Names, limits, nominal values, spaces and positions have equal length and order. Reset and step report the same quantities at the same places.",
  ["inputs", "configurations"], "all ODE states and voltages for every drive type", "tests verify single systems with mocked values",
  [SYS], [("state assembly in reset and simulate", SYS)])
p("C18", "One simulation step integrates the commanded voltages over exactly one step time",
  "A step applies to the motor, segment by segment, the voltages the converter outputs for the present currents times the present supply voltage, and advances time and step counter by exactly one. The voltages reported are those applied in the last segment. After a reset, time and counter are zero and the reported state is the solver's initial state.",
  ["inputs", "histories"], "all motor states, actions, interlocking times and supply voltages", "tests use mocked converters and constant states",
  [SYS], [("simulate()", SYS)])
p("C19", "The supply is loaded with the current the converter draws",
  "In each segment the supply is asked for its voltage with the supply current drawn by the converter for the motor currents of that segment. Reported supply voltage is the one applied. This holds for every drive type including excitation and rotor circuits.",
  ["inputs"], "all motor states and actions for every drive type", "tests ignore the supply current (ideal supply)",
  [SYS, CONV, SUP], [("i_sup evaluation in simulate()", SYS)])
p("C20", "Episodes terminate exactly on full violation and then require a reset",
  "A step reports termination exactly if the merged constraint violation reaches one, and afterwards no further step is possible until a reset. Before the first reset no step is possible. Exchanging reference generator or reward function requires a reset as well, and nothing is simulated by a refused step.",
  ["inputs", "histories"], "all violation degrees and sequences of up to three steps", "tests use mocks with fixed violation degrees",
  [CORE], [("ElectricMotorEnvironment.step/reset", CORE)])
p("C21", "The reference an agent observes is the one it is rewarded for",
  "The reference observed after a step is the reference the next step's reward and plots use, for every generator. The reference seen in a reset observation is the one of the first step.",
  ["inputs", "histories"], "all states, random draws and histories of three steps for every generator", "tests check generators in isolation",
  [CORE, RG], [("get_reference / get_reference_observation", RG)])
p("C22", "Observations contain exactly the selected states in the selected order",
  "The observation's state part equals the drive's state restricted to the state filter in filter order, and limits, names, nominal values and observation space are selected alike. All of this holds for reset and step and any filter.",
  ["inputs", "configurations"], "all states and filters", "tests use one filter",
  [CORE], [("state_filter", CORE)])
p("C23", "Constraints measure limit violation correctly and are merged as requested",
  "A limit constraint reports full violation exactly if an observed state exceeds its limit; the squared constraint exactly if the squared sum exceeds one. All configured constraints, also plain functions, contribute; the merged value is their maximum, their probabilistic union or the user's function of them, and lies in [0, 1].",
  ["inputs", "configurations"], "all states and violation degrees for one to three constraints", "tests use few sample states",
  [G + "constraints.py", CORE], [("LimitConstraint, SquaredConstraint, ConstraintMonitor", CORE)])
p("C24", "Rewards decrease with tracking error, stay in range and punish violations",
  "The reward depends only on the weighted errors of the referenced states, is maximal for zero error, does not increase when any error grows, and stays inside the declared reward range. With full violation the reward equals the configured violation reward, and in between both are blended linearly.",
  ["inputs", "configurations"], "all states, references, violation degrees, weights, powers 1 and 2 and discount settings", "tests compare a few numbers",
  [RW], [("reward()", RW)])
p("C25", "Generated references stay inside the allowed range",
  "Every reference value any generator produces lies inside the range that limit margin and state space allow, for every random draw. Unreferenced entries are zero.",
  ["inputs", "histories"], "all random draws, previous references and parameters for all generators", "tests sample seeded trajectories",
  [RG], [("_reset_reference of the generators", RG)])
p("C26", "Reference episodes are continuous in time and composition is faithful",
  "Sub-episodes follow each other without skipping, repeating or overrunning values. A multiple reference generator returns exactly the references of its parts for their states; a switched generator returns exactly the reference of its active part. Lengths lie in the configured range.",
  ["histories", "inputs"], "all sub-episode lengths up to four, three sub-episodes, all values and all switching decisions", "tests follow one seeded history",
  [RG], [("SubepisodedReferenceGenerator, MultipleReferenceGenerator, SwitchedReferenceGenerator", RG)])
p("C27", "The dead-time wrapper delays every action by exactly the configured steps",
  "The action applied to the drive in step k is exactly the action played in step k minus the dead time, and a reset action before. A reset forgets all pending actions.",
  ["histories", "inputs"], "all actions, dead times one to three, histories with a reset in between", "tests use one action list",
  [WR + "dead_time_processor.py"], [("simulate/reset of the wrapper", WR + "dead_time_processor.py")])
p("C28", "The dq-action wrapper applies the commanded rotating-frame voltage",
  "A rotating-frame action given to the wrapper reaches the drive as phase action whose rotating-frame view at the angle half a step ahead of the last observed angle equals the command. Remaining actions pass unchanged. The angle used is taken from the most recent state, also after a reset.",
  ["inputs", "histories"], "all actions, angles, speeds for synchronous, excited and induction machines", "tests use fixed angles and mocks",
  [WR + "dq_to_abc_action_processor.py"], [("simulate/reset of the wrapper", WR + "dq_to_abc_action_processor.py")])
p("C29", "State wrappers add their quantity and leave everything else unchanged",
  "Cosine/sine, current-sum and noise wrappers append or alter only the quantity they document, with the documented value, in step and reset alike. Names, positions, limits, nominal values, space and state keep equal length and order.",
  ["inputs", "configurations"], "all states and noise values", "tests use one state vector",
  [WR], [("cos_sin_processor, current_sum_processor, state_noise_processor", WR)])
p("C30", "The flux observer reproduces the rotor flux of the induction machine",
  "The flux estimate follows the documented rotor flux equation with the measured currents and speed for every input sequence and starts at zero with each episode. The reported angle and magnitude are those of the estimate.",
  ["inputs", "histories"], "all currents, speeds, angles, two-step histories with reset", "tests check one recorded sequence",
  [WR + "flux_observer.py"], [("simulate/reset", WR + "flux_observer.py")])
p("C32", "Equal seeds reproduce everything; foreign random state has no influence",
  "Two instances given the same seed produce identical initial states, references, loads, supply phases and noise for all generated random numbers. Draws never depend on random numbers consumed elsewhere in the process. After seeding, a component's earlier history does not matter.",
  ["histories", "inputs"], "all values of the seeded generator's draws and of the global generator's draws", "tests compare two runs in one process with fixed draws",
  [G + "random_component.py", SYS, MOT, LOAD, RG], [("RandomComponent", G + "random_component.py")])
p("C33", "Instances are isolated from each other and from their inputs",
  "Creating, configuring or running one motor, load, supply, converter, reference generator, wrapper, environment or controller never changes the behaviour of another instance or of instances created later. Parameter dictionaries and arrays passed by the user are not modified.",
  ["histories", "configurations"], "all parameter values; pairs of instances created and used in any order", "tests create instances in isolation",
  [G, GC, G + "core.py"], [("constructors of all components", G), ("ElectricMotorEnvironment.__init__", G + "core.py"), ("GemController.make", GC)])
p("C34", "Controller clipping keeps commands inside the allowed region",
  "The absolute clipping returns the input limited to its bounds; the squared and combined clipping keep the vector length within the limit while preserving direction, and inputs already inside are unchanged. The flag reporting clipping is true exactly if something was changed.",
  ["inputs", "configurations"], "all references, limits and margins", "there are no unit tests of the clipping stages",
  [ST + "clipping_stages/"], [("__call__ of the clipping stages", ST + "clipping_stages/")])
p("C35", "PI controllers follow the discrete PI law with anti-windup",
  "A P, I, PI or PID controller outputs exactly the documented discrete law of the error history; the three point controller switches high below, low above and idle inside its hysteresis band. While a component of the output is clipped its integrator does not wind up further. A reset clears the integrator. The tuned gains of the current and speed controllers follow the symmetrical optimum for every motor parameter.",
  ["inputs", "histories"], "all gains, references, measurements and clipping patterns, three-step histories", "there are no unit tests of the base controllers",
  [ST + "base_controllers/", ST + "anti_windup.py"], [("control/integrate/auto_reset", ST + "base_controllers/")])
p("C36", "EMF feedforward cancels the speed dependent voltage of the motor",
  "Adding the feedforward to a voltage command removes exactly the speed-induced terms of the motor's own equations, for every current and speed. It changes nothing at standstill, except for the cross coupling that does not depend on the speed in the externally excited synchronous machine.",
  ["inputs"], "all currents, fluxes, speeds, voltage commands for all motors with feedforward", "there are no unit tests of the feedforward",
  [ST + "emf_feedforward.py", ST + "emf_feedforward_eesm.py", ST + "emf_feedforward_ind.py", MOT], [("__call__", ST + "emf_feedforward.py")])
p("C37", "Controller input and output stages map units and limits faithfully",
  "The input stage returns physical values of observation and reference; the continuous output stage returns the command normalised to the limits (a command inside the limits is an action inside [-1, 1]); the discrete output stage returns a valid action whose switching direction matches the command. The inverse coordinate transformation of the controller is consistent with that of the drive.",
  ["inputs", "configurations"], "all states, references and voltage commands", "there are no unit tests of the stages",
  [ST], [("input_stage, cont_output_stage, disc_output_stage, abc_transformation", ST)])
p("C38", "Operating points deliver the requested torque within limits",
  "For DC machines the current operating point selected for a torque produces that torque in the machine's own equation whenever it is reachable within the limits, with the sign of the request. Otherwise the limits are respected. For three phase machines the equation handed to the root finder is the flux equation of the machine, its solution delivers the requested torque, the selection between the optimal, the flux limited and the analytic point delivers the request (up to the resolution of the tables) limited to what the flux allows, with its sign, the flux correction stays inside its bounds and the current vector of the induction machine inside its limit.",
  ["inputs"], "all torque requests, flux limits and correction histories of two steps", "there are no unit tests of the operation point selection",
  [ST + "operation_point_selection/"], [("_select_operating_point", ST + "operation_point_selection/")])
p("C39", "Cascaded controllers always return an action of the drive's action space",
  "For every observation and reference inside their spaces a designed controller returns an action contained in the drive's action space. Resetting the controller makes its answer independent of history.",
  ["inputs", "histories"], "all observations and references; one earlier step", "the integration tests run seeded simulations",
  [GC], [("GemController.control", GC + "gem_controller.py")])
p("C40", "Parameter and state helpers treat every specification form alike",
  "State specifications given as dictionary, list, array or number are expanded to the same full array in declared order, and unknown names raise. Merging parameter dictionaries overrides exactly the given keys and leaves both sources unmodified.",
  ["inputs", "configurations"], "all values and subsets of keys", "tests use few samples",
  [G + "utils.py"], [("set_state_array, update_parameter_dict, initialize", G + "utils.py")])

NOT_APPLICABLE = {}
