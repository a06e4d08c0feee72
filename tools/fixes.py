OPEN = [
    dict(property="C11", id="C11-standstill-0.0", case="load-standstill-0.0", label="speed derivative of the load equation at standstill",
         text="polynomial load without constant friction (a=0, b=0.0, c=0) at standstill: the Jacobian contains the slope j/tau_decay of the linear friction region although the load equation has none there (pinned by tests/test_physical_systems/test_mechanical_loads.py::TestPolyStaticLoad::test_jacobian)"),
    dict(property="C11", id="C11-standstill-0.02", case="load-standstill-0.02", label="speed derivative of the load equation at standstill",
         text="polynomial load without constant friction (a=0, b=0.02, c=0) at standstill: the Jacobian contains the slope j/tau_decay of the linear friction region although the load equation has none there (pinned by tests/test_physical_systems/test_mechanical_loads.py::TestPolyStaticLoad::test_jacobian)"),
    dict(property="C10", id="C10-eesm-energy", case="energy-eesm", label="magnetic energy is not negative",
         text="the default EESM parameters have 3/2 l_m^2 > l_d l_e: the magnetic energy is indefinite (e.g. i_sd=147, i_e=-299: -0.08 J) and the currents diverge without supply; which parameter is wrong cannot be told from the code"),
    dict(property="C03", id="C03-4qc-second-leg", case="C4QC-interlocked", label="each leg discounts its own current.*",
         text="continuous 4QC with interlocking time: the second half bridge is discounted with the sign of i instead of -i, so both interlocking errors cancel (pinned by tests/test_converters.py::comparable_voltage)"),
    dict(property="C23", id="C23-user-merge", case="merge-user-positional", label="the user's function is called with the degrees",
         text="a user merge function with the documented signature callable(*violation_degrees) raises TypeError: it is called with one list of all degrees (pinned by tests/test_core.py::TestConstraintMonitor::test_check_constraints)"),
    dict(property="C32", id="C32-scim-uniform-flux", case="drive-scim-uniform", label="equal initial values and loads of the (first|second) episode.(3|4).*",
         text="induction motors with random_init and a random initial speed other than zero: the range of the initial rotor flux is computed from the stator currents of the previous episode (InductionMotor.reset updates the limits before it draws the currents), so the first flux after seeding depends on the history; a repair has to change the order of the draws"),
]
FIXES = [
    ("propagate a changed step time to the half bridges of 4QC and B6 converters", ["C06"], "converters built from half bridges kept the old step time in their half bridges after tau was changed"),
    ("reset the switching state of finite converters with the episode", ["C06"], "the switching state of finite half bridges survived a reset and inserted a dead time into the next episode"),
    ("evaluate every switching segment with its own switching state and before reading the supply current", ["C18", "C19"], "supply current was read before the converter evaluated the segment"),
    ("split stator and excitation quantities correctly in EESM interlocking segments", ["C18"], "EESM interlocking segments crashed or mixed stator and excitation quantities"),
    ("report the EESM voltages in the declared state order on reset", ["C09", "C17"], "EESM reset reported u_e at the place of u_sd"),
    ("coordinate transformations no longer rescale the caller's angle in place", ["C08"], "the normed_epsilon option multiplied the caller's angle array by pi in place"),
    ("return a fresh derivative from every evaluation of the system equation", ["C11"], "all derivative evaluations shared one array, so multi-stage solvers read later values"),
    ("transform the reported currents with the angle of the reported instant", ["C09"], "reported abc currents used the angle before the last segment"),
    ("report the DFIM rotor dq currents in the field frame after a reset", ["C09"], "DFIM reset used the wrong angle for the rotor dq currents"),
    ("give the DFIM rotor converter the currents of the rotor frame it feeds", ["C19", "C09"], "the DFIM rotor converter saw currents in the wrong frame"),
    ("hand out the initial currents of synchronous motors in ODE state order", ["C12"], "initial currents of synchronous motors were assigned in initializer instead of ODE order"),
    ("creating a DFIM no longer extends the induction motors' class level quantity lists", ["C33"], "creating a DFIM grew the class level name lists of all induction motors"),
    ("make the Ornstein-Uhlenbeck load constructible and seedable", ["C14", "C32"], "the OU load could not be constructed and used the global generator"),
    ("draw the initial states of three phase motors from the seeded generator", ["C32"], "random initial states used scipy/numpy global state instead of the seeded generator"),
    ("keep load initializers of different load instances independent", ["C33"], "load instances shared one class level initializer dictionary"),
    ("evaluate the Euler sub-steps at their own times", ["C16"], "Euler sub-steps were all evaluated at the first time"),
    ("AC supplies no longer write a phase into the caller's parameter dictionary", ["C15", "C33"], "AC supplies wrote the phase into the caller's dictionary"),
    ("draw the phase of AC supplies from the seeded generator", ["C32"], "the random AC phase came from the global generator"),
    ("return the initial motor state in the order of the ODE state, not of the user's dictionary", ["C12"], "initial values given in another order than the ODE state were assigned to other quantities (DC and induction motors)"),
    ("derive the EESM torque limit from the excitation flux", ["C12"], "the derived EESM torque limit used the armature current instead of the excitation current and was exceeded at nominal current"),
    ("check constant initial fluxes independently of the randomly drawn field angle", ["C12"], "a constant initial rotor flux inside the nominal range was rejected depending on a random field angle"),
    ("allow polynomial loads without an own moment of inertia", ["C13"], "a polynomial load with j_load=0 divided by zero at construction"),
    ("merge constraint violations to their probabilistic union", ["C23"], "'product' merging raised TypeError because the list was passed as one argument"),
    ("observe constraints given to the environment as plain functions", ["C23"], "plain functions in the environment's constraints were silently dropped"),
    ("name the referenced state of the constant reference in a list", ["C26"], "the reference names of a constant reference were split into letters by multiple reference generators"),
    ("count the reset reference to the first super episode of switched references", ["C26"], "the first super episode of a switched reference was one step longer than configured"),
    ("keep the delayed action when the caller reuses its action array", ["C27"], "the dead time processor stored the caller's array itself, so an action array reused by the caller changed the delayed actions"),
    ("delay flat zero actions for multi-discrete action spaces", ["C27"], "the default reset action for multi-discrete spaces was nested in a list"),
    ("remove the angle from the reset state, too", ["C29"], "CosSinProcessor(remove_angle=True) returned the reset state with the angle"),
    ("sum up currents of different limits in their physical unit", ["C29"], "the current sum added up currents normalised to different limits"),
    ("support the documented shortcut 'all' of the state noise", ["C29"], "StateNoiseProcessor(states='all') raised KeyError"),
    ("refer the DFIM stator action to the flux angle", ["C28"], "the stator dq action of the DFIM was transformed with the rotor position instead of the flux angle"),
    ("seed the generators of physical system wrappers", ["C32"], "seeding an environment left the generators of its wrappers (e.g. state noise) unseeded"),
    ("draw gaussian initial values from the seeded generator", ["C32"], "gaussian initial values used a fixed pool entry of the seed sequence: every episode started with the same values"),
    ("clip by the length of the reference vector, not by its square", ["C34"], "squared and combined clipping compared and divided by the squared length: long vectors were over-shortened and vectors close to the limit exceeded it"),
    ("apply the margin of the vector clipping stages exactly once", ["C34"], "the squared clipping ignored its margin and the combined clipping applied it twice"),
    ("apply the clipped voltage reference of the PI current controller", ["C39", "C35"], "PICurrentController returned the unclipped voltage reference: actions outside the action space"),
    ("return the action range of the squared clipping stage", ["C39", "C34"], "torque control of PMSM, SynRM and SCIM could not be tuned (IndexError)"),
    ("use the builtin complex instead of the removed np.complex", ["C39"], "PMSM/SynRM/EESM operation points could not be tuned with the installed numpy"),
    ("set the resistance of the PermExDc operation point selection", ["C38"], "the resistance was never set: every call raised ValueError"),
    ("compute the PermExDc maximum current per speed from the voltage equation", ["C38"], "the maximum current divided the voltage by R + psi*omega (different units): reachable torques were cut"),
    ("advance the abc transformation by the electrical angle per sampling time", ["C37"], "the controller's abc transformation advanced by mechanical speed and a fixed sampling time"),
    ("use the electrical speed in the induction motor feedforward", ["C36"], "the SCIM feedforward used the mechanical speed: no decoupling for p > 1"),
    ("enable the emf feedforward of the ExtExDc and PermExDc motors", ["C36"], "the pole pair number 0 switched the feedforward of ExtExDc and PermExDc off"),
    ("accept the time constant in the tuning of the P controller", ["C35"], "P speed controllers could not be tuned (TypeError)"),
    ("pass the time constant to the speed tuning of the PID controller", ["C35"], "PID speed controllers could not be tuned (TypeError)"),
    ("reset the last error of the PID controller", ["C35", "C39"], "the last error survived a reset and kicked the first action of the next episode"),
    ("tune the three point controller for the current and speed control", ["C35"], "three point controllers could not be tuned (TypeError, ValueError)"),
    ("return the PermExDc current loop time constant as array", ["C35"], "speed control of the PermExDc with a P current controller raised TypeError"),
    ("create an own flux controller for every SCIM operation point selection", ["C33"], "all SCIM controllers shared one flux controller object through a default argument"),
    ("avoid the square root of negative torques in the SeriesDc operation point selection", ["C38"], "negative torque references gave nan currents"),
    ("set should_plot on the controller instead of on the class", ["C33"], "creating a controller switched plotting of all existing controllers"),
    ("initialize the modulation controller in the tuning of the field oriented operation point selections", ["C39"], "the first control call without a preceding reset raised TypeError"),
    ("integrate before the first reset of an I controller", ["C35", "C39"], "integrating before the first reset raised TypeError (SCIM torque control without preceding reset)"),
    ("decouple the EESM voltages exactly for its leakage and turns ratio", ["C36"], "the EESM feedforward ignored the leakage factor and the factor 3/2 of the excitation coupling: the speed dependence was not removed"),
    ("correct the flux polynomial of the PMSM and EESM operation points", ["C38"], "l_q instead of l_d in the linear coefficient: the analytic operating point did not have the selected flux"),
    ("use the torque equation of the EESM in its operation point polynomial", ["C38"], "a factor 2 was missing: the analytic EESM operating point did not have the selected flux"),
    ("index the MTPF table of the PMSM operation points by its own length", ["C38"], "entries beyond the current limit are dropped from the table, the index ignored this: SynRM torques were cut to wrong values"),
    ("invert the quadrature current of lookup table entries only", ["C38"], "for SynRM with l_q < l_d the analytic currents were inverted, too: torque of the wrong sign"),
    ("limit the EESM torque by the limited flux", ["C38"], "the torque was limited for the unlimited flux: nan currents at high speeds"),
    ("current controllers with several currents answer before their first reset", ["C39"], "the first control call of a freshly made ExtExDc or three phase controller without preceding reset raised ValueError"),
    ("continue the random numbers of the last seed in resets without a seed", ["C32"], "every env.reset() without a seed drew a fresh seed: the episodes after env.reset(seed=7) were not reproducible"),
    ("draw the initial value of the Wiener process from the generator of its episode", ["C32"], "the initial value came from the generator of the previous episode and depended on its length"),
    ("make the sub generators of the SwitchedReferenceGenerator independent of earlier switches", ["C32"], "the random numbers of an episode depended on the number of switches, hence on the length, of the previous episode"),
    ("give every environment its own simulation parameters", ["C33"], "the simulation parameters (step time) were a class attribute: a second environment with another tau changed env.sim.tau of the first"),
    ("do not share the default constraints between environments", ["C33"], "the default constraint objects were shared: a second EESM environment with a CosSinProcessor made step() of the first raise IndexError"),
]
