"""Writes properties.jsonl (kept as code so the statements stay reviewable)."""
import json, os
P = []
RT = "run_time_assurance/rta/"
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(obs), hook_needed=None)))
NOASSERT = ("The repository's tests are simulation scripts that only fail on an exception: they contain no assertion, so they "
            "visit a few hundred states of one trajectory and judge none of them. ")

p("C01", "Filtered control always respects the actuation bounds",
  "Whenever an RTA module is enabled, every component of the control it returns lies within the control bounds the module was "
  "constructed with, for scalar, list or array bounds and for one-sided bounds. This holds for every module kind (switching, "
  "optimization, discrete optimization, cascade, combined and zoo modules), whatever the state, the desired control, the "
  "backup controller's raw output or the solver's outcome.",
  ["inputs", "configurations", "histories"], "all states, desired controls, bound shapes, module kinds, solver outcomes",
  NOASSERT + "They use scalar symmetric bounds only.",
  [RT + "base.py", RT + "asif.py"], [("output clipping", RT + "base.py filter_control/_clip_control"), ("actuation rows of the QP", RT + "asif.py _generate_actuation_constraint_mats"), ("solver bounds", RT + "asif.py DiscreteASIFModule")],
  obs=["filter_control return value"])
p("C02", "A disabled module is an exact pass-through and freezes its safety state",
  "While an RTA module is disabled, filtering returns the desired control unchanged (not even clipped), whatever the state. "
  "The calls made while disabled leave no trace in later decisions: after re-enabling, outputs and intervention flags are the "
  "same as if the disabled calls had never happened.",
  ["histories", "inputs"], "all interleavings of enable/disable with filtering, all module kinds",
  NOASSERT + "No test ever disables a module.",
  [RT + "base.py"], [("enable branch", RT + "base.py filter_control")], [("enable", "user switch", RT + "base.py")], ["filter_control return value", "intervening"])
p("C03", "Explicit switching passes the desired control iff its next state is safe",
  "An unlatched explicit switching module returns the (bound-limited) desired control exactly when the state predicted after one "
  "step under that returned control satisfies every enabled constraint including its bias, with zero counting as satisfied; "
  "otherwise it returns the backup controller's (bound-limited) control for the current state. The intervention flag is true "
  "exactly in the second case.",
  ["inputs", "configurations"], "all states, step sizes, desired controls, constraint sets, bounds",
  NOASSERT, [RT + "simplex.py"], [("monitor and switch", RT + "simplex.py SimplexModule._filter_control, ExplicitSimplexModule._monitor"), ("constraint evaluation", RT + "simplex.py _constraint_violation")],
  [("intervening", "last decision", RT + "base.py")], ["filter_control return value", "intervening"])
p("C04", "Implicit switching certifies the desired step and the whole backup window",
  "An unlatched implicit switching module returns the (bound-limited) desired control exactly when every enabled constraint holds "
  "at the state reached by the desired control and at every one of the following steps of the (bound-limited) backup controller that fit in the "
  "backup window at the call's step size; otherwise it returns the backup control for the current state. The intervention flag says which of the two happened.",
  ["inputs", "configurations", "histories"], "all states, windows, step sizes, stateful and stateless backup controllers",
  NOASSERT, [RT + "simplex.py"], [("backup trajectory", RT + "simplex.py ImplicitSimplexModule.integrate"), ("violation test", RT + "simplex.py _constraint_violation")],
  obs=["filter_control return value", "intervening"])
p("C05", "Switching keeps the closed loop inside the safe set",
  "If the plant moves as the module predicts and the backup controller keeps the safe set invariant, then a system that starts safe "
  "and applies the controls returned by a switching module satisfies all enabled constraints at every later step, for every "
  "sequence of desired controls and any latch time. For implicit switching the guarantee needs only that the backup trajectory of the start state is safe over "
  "the window and that the window reaches a set the backup controller keeps invariant.",
  ["histories", "inputs"], "all desired-control sequences from all safe initial states",
  NOASSERT + "They follow one desired controller from one initial state.",
  [RT + "simplex.py", RT + "base.py"], [("monitor and switch", RT + "simplex.py")], obs=["closed-loop states"])
p("C06", "Latched switching holds the backup for exactly the latch time",
  "After a switching module switches to the backup, it keeps returning the backup control and reporting intervention on the "
  "following enabled calls, whatever the desired control, until the step time accumulated over those calls has reached the latch time; the next call is "
  "then decided by the monitor alone, and a new switch starts a full new latch period. With a zero latch time every call is decided by the monitor.",
  ["histories", "schedules"], "all sequences of calls, step sizes, latch times",
  NOASSERT + "No test uses a latch.", [RT + "simplex.py"], [("latch timer", RT + "simplex.py _filter_control")],
  [("latched_elapsed", "time latched", RT + "simplex.py")], ["filter_control return value", "intervening"])
p("C07", "Reset makes a used module indistinguishable from a fresh one",
  "After any history of calls (filtering, switching, latching, solver failures, disabling, telemetry updates), a reset module behaves "
  "exactly like a newly constructed module with the same constraint settings: same telemetry, same returned controls, same flags on "
  "every continuation. This includes everything the module owns: latch timer, backup controller state, cascade stages, deputy "
  "modules, delta-v latch and integrator.",
  ["histories"], "all histories followed by reset and all continuations, every module kind",
  NOASSERT + "No test ever resets a module.", [RT + "base.py", RT + "simplex.py", RT + "asif.py", "run_time_assurance/controller.py", "run_time_assurance/zoo/cwh/inspection_1v1.py", "run_time_assurance/zoo/cwh/inspection_3d.py"],
  [("reset chain", RT + "base.py RTAModule.reset and overrides")], obs=["filter_control", "generate_info"])
p("C08", "Look-ahead never leaks into the backup controller's memory",
  "A stateful backup controller advances exactly once for each backup control that is actually returned, and not at all for "
  "safety look-ahead, for passed desired controls or for disabled calls; the look-ahead itself starts from the current memory and threads it from step to step. "
  "Saving and restoring a controller brings back the saved memory however often it is advanced in between, and reset brings back the initial memory, "
  "for array and dictionary memories.",
  ["histories", "configurations"], "all call histories with stateful controllers",
  NOASSERT + "Every controller in the repository is stateless.", ["run_time_assurance/controller.py", RT + "simplex.py", RT + "asif.py"],
  [("save/restore around integration", RT + "simplex.py integrate, asif.py integrate"), ("state copy", "run_time_assurance/controller.py")],
  [("controller_state", "controller memory", "run_time_assurance/controller.py")], ["sequence of backup controls"])
p("C09", "Explicit optimization returns the closest admissible control",
  "When its constraints are consistent, an explicit optimization module returns the control closest (Euclidean) to the desired one among those that meet the "
  "actuation bounds, every enabled direct inequality and, for every enabled constraint h, the barrier condition dh/dt + strengthener(h) >= 0 "
  "(with the negative-side strengthener and bias when h < 0). In particular an admissible desired control is returned unchanged, and intervention is reported exactly when the optimum is farther than epsilon from the desired control.",
  ["inputs", "configurations"], "all states, desired controls, constraint sets, bounds, strengtheners",
  NOASSERT, [RT + "asif.py", "run_time_assurance/constraint.py"], [("barrier rows", RT + "asif.py ExplicitASIFModule._generate_barrier_constraint_mats"), ("QP", RT + "asif.py _optimize")],
  obs=["filter_control return value", "intervening"])
p("C10", "Infeasible and softened problems are handled as configured",
  "If no control is admissible, an optimization module either raises its solver error (when configured to raise) or warns and "
  "returns the bound-limited desired control (quadratic-program modules), and later feasible calls are unaffected. A "
  "constraint with a slack priority is given up only as far as the hard constraints and bounds force it, higher priorities being given up last, "
  "while hard constraints are still met exactly.",
  ["inputs", "configurations", "histories"], "all infeasible inputs, slack assignments and following calls",
  NOASSERT + "No test uses slack; none asserts on infeasibility.", [RT + "asif.py", "run_time_assurance/utils/utils.py"],
  [("infeasible branch", RT + "asif.py _optimize"), ("slack columns", RT + "asif.py")], obs=["exceptions/warnings", "filter_control return value"])
p("C11", "Changed constraint parameters and switches apply from the very next call",
  "Changing a constraint's parameters or its enabled flag between calls (in place or by replacing the parameter dictionary) makes the very next decision the "
  "same as that of a module built with the new setting, for switching, optimization and discrete modules and for direct inequalities, with or without compilation. "
  "A disabled constraint has no influence on any decision, whatever its value, and re-enabling it restores it fully.",
  ["histories", "configurations"], "all sequences of parameter changes, enable flags and calls",
  NOASSERT + "One test changes one parameter once and asserts nothing.", [RT + "base.py", RT + "simplex.py", RT + "asif.py"],
  [("parameter refresh", RT + "base.py _update_params"), ("disabled branches", RT + "asif.py constraint_disabled, simplex.py constraint_disabled")], obs=["filter_control return value", "intervening"])
p("C12", "Telemetry reports what actually happened",
  "After each call the info dictionary reports the enable flag, the intervention flag, the desired control as given and the control actually returned; "
  "constraint values are the unbiased values of all constraints (disabled ones included) at the state of the latest enabled filtering or explicit update, under the key for "
  "stale values after filtering and under the key for current values after an explicit update. Neither filtering nor updating modifies the caller's arrays, and later changes the "
  "caller makes to arrays it passed to filtering or got back from it do not alter what is reported or decided.",
  ["histories", "inputs"], "all interleavings of filtering, updating, reset and reporting",
  NOASSERT, [RT + "base.py", "run_time_assurance/constraint.py"], [("generate_info", RT + "base.py"), ("constraint values", RT + "base.py _update_constraint_values"), ("copies", RT + "base.py filter_control")], obs=["generate_info"])
p("C13", "A cascade is the in-order composition of its stages",
  "A cascade passes the desired control through its stages in list order, each stage filtering the previous stage's output for the same state and step, and returns the last "
  "output limited to the cascade's own bounds. It reports intervention exactly when some stage reports intervention on that call.",
  ["inputs", "histories", "configurations"], "all stage lists, states, controls, histories",
  NOASSERT + "The only cascade test cannot even construct its module here.", [RT + "base.py"], [("composition", RT + "base.py CascadedRTA")], obs=["filter_control return value", "intervening"])
p("C14", "Implicit optimization enforces the barrier along the backup trajectory",
  "An implicit optimization module returns the control closest to the desired one that meets bounds, direct inequalities and, for each enabled constraint "
  "and each selected point of the backup trajectory from the current state over the backup window, the barrier condition mapped back to the "
  "current state through the trajectory sensitivity. The selected points are exactly those of the constraint's subsampling settings (all of a prefix, then "
  "every k-th, of these the n least-valued, plus first/last if kept).",
  ["inputs", "configurations"], "all states, windows, subsampling settings, controllers",
  NOASSERT + "At the pinned commit all implicit-optimization tests crash.", [RT + "asif.py"], [("trajectory and sensitivity", RT + "asif.py ImplicitASIFModule.integrate"), ("subsampling", RT + "asif.py subsample_constraints")], obs=["filter_control return value", "intervening"])
p("C15", "Discrete optimization enforces the one-step barrier minimally",
  "When feasible, a discrete optimization module returns (to solver accuracy) the control closest to the desired one, within the bounds, such that for every enabled constraint h "
  "the predicted next state satisfies (h(next) - h(now))/step + strengthener(h(now)) >= 0; intervention is reported exactly "
  "when it moves the control by more than epsilon. If the solver fails it warns or raises as configured.",
  ["inputs", "configurations"], "all states, controls, step sizes, constraint sets, bounds shapes",
  NOASSERT + "The only discrete test crashes here.", [RT + "asif.py", "run_time_assurance/constraint.py"], [("discrete CBF", "run_time_assurance/constraint.py DiscreteCBFConstraint"), ("SLSQP", RT + "asif.py DiscreteASIFModule._filter_control")], obs=["filter_control return value", "intervening"])
p("C16", "Selecting constraints keeps exactly the named ones",
  "A module built with a list of constraints to use enforces and reports exactly the constraints named in the list, in their defined order, and behaves as a module "
  "that only ever defined those; a list that names none of its constraints is rejected with an error at construction, and no list means all constraints.",
  ["configurations"], "all subsets and name lists, all constraint-based modules",
  NOASSERT, [RT + "base.py"], [("selection", RT + "base.py ConstraintBasedRTA.__init__")], obs=["generate_info", "filter_control"])
p("C17", "Compilation settings never change decisions",
  "Turning just-in-time compilation on or off, globally or per subroutine (those that can be compiled), changes neither the returned controls nor the flags nor the telemetry of a module, "
  "beyond rounding, for any sequence of calls including step-size and parameter changes.",
  ["configurations", "histories"], "all jit settings and call sequences",
  NOASSERT, [RT + "base.py", RT + "simplex.py", RT + "asif.py", "run_time_assurance/controller.py", "run_time_assurance/constraint.py"], [("compose", RT + "*.py compose")], obs=["filter_control", "generate_info"])
p("C18", "Sample testing reports the true safety verdict of every episode",
  "A safety sample test simulates exactly the requested number of episodes from initially safe states (resampling unsafe ones), and records for each its initial state and whether all "
  "constraints' unbiased values stayed non-negative until the episode's end and the solver never failed. The data-tracking test returns aligned state, control and "
  "intervention histories of one such closed-loop episode, starting from the initial state and ending when the done condition first holds.",
  ["histories", "inputs", "fault_sequences"], "all episode outcomes, solver failures, done conditions, initial-state streams",
  NOASSERT + "At the pinned commit the sample test crashes.", ["run_time_assurance/utils/sample_testing.py"], [("episode loop", "run_time_assurance/utils/sample_testing.py _simulate_episode, simulate_episode"), ("results file", "run_time_assurance/utils/sample_testing.py run_sample_test")], obs=["csv file", "returned arrays"])
p("C19", "Constraint library evaluates the documented barrier functions",
  "The state-limit constraints are non-negative exactly inside their documented limit, evaluate to the documented formula plus bias, report the formula without bias for logging and differentiate to its "
  "gradient; polynomial strengtheners evaluate their polynomial. A higher-order constraint of relative degree r equals the chain psi_0 = h, "
  "psi_i = d(psi_{i-1})/dt along the drift + strengthener(psi_{i-1}), evaluated at psi_{r-1}, while logging reports h.",
  ["inputs", "configurations"], "all states, limits, biases, coefficients, relative degrees",
  NOASSERT, ["run_time_assurance/constraint.py"], [("formulas", "run_time_assurance/constraint.py")], obs=["constraint call, phi, grad, alpha"])
p("C20", "Reported intervention causes are the binding conditions",
  "After a quadratic-program module solves a feasible problem, the constraints it lists as causing the intervention are exactly the conditions that bind at the returned control and push it "
  "away from the desired one (bounds, constraints or direct inequalities, by name, without duplicates); the list is empty when the desired control is returned unchanged or the "
  "problem was infeasible.",
  ["inputs", "configurations"], "all states, controls, constraint orders, subsampling settings, bounds",
  NOASSERT, [RT + "asif.py"], [("active set names", RT + "asif.py _optimize, constraint_names")], obs=["constraints_causing_intervention"])
p("C21", "Combined multi-agent inspection filters every agent by its own view",
  "The combined inspection module returns, for each agent, the control its deputy module returns for that agent's desired control and "
  "for the joint state reordered so that this agent comes first, the others keep their order and the sun angle stays last; it reports intervention exactly when some agent's control was "
  "intervened on. This holds for any number of agents.",
  ["inputs", "configurations"], "all joint states, controls, numbers of agents",
  NOASSERT, ["run_time_assurance/zoo/cwh/inspection_3d.py"], [("per-agent loop", "run_time_assurance/zoo/cwh/inspection_3d.py CombinedInspectionRTA")], obs=["filter_control return value", "intervening"])
p("C22", "Delta-v limit switching trips before the budget is exceeded and stays tripped",
  "The delta-v limit module passes the desired control as long as the delta-v predicted after it and after its configured number of backup-controller steps stays within "
  "the limit (desired controls within the bounds, at least one such step); at the first call where it would not, it returns the backup control and keeps returning it, flagged as intervening, until reset. The backup controller's "
  "error integral advances once per returned backup control and never during prediction.",
  ["histories", "inputs"], "all states, limits, desired-control sequences",
  NOASSERT + "The tests cannot construct the module here.", ["run_time_assurance/zoo/cwh/inspection_1v1.py"], [("trip logic", "run_time_assurance/zoo/cwh/inspection_1v1.py SwitchingDeltaVLimitRTA")],
  [("latched", "tripped", "run_time_assurance/zoo/cwh/inspection_1v1.py")], ["filter_control return value", "intervening"])
p("C23", "Docking and integrator modules wire the documented dynamics and limits",
  "The ready-made docking (2D, 3D) and 1D integrator modules predict with the Clohessy-Wiltshire or integrator dynamics of the given mass and mean motion, enforce the "
  "documented distance-dependent speed limit, per-axis velocity limits and stopping-distance constraint with the parameters they were given, and use the documented bounds. Their decisions "
  "and outputs are those of the generic module for these dynamics and constraints.",
  ["inputs", "configurations"], "all states, parameters, module variants",
  NOASSERT, ["run_time_assurance/zoo/cwh/docking_2d.py", "run_time_assurance/zoo/cwh/docking_3d.py", "run_time_assurance/zoo/integrators/integrator_1d.py", "run_time_assurance/zoo/cwh/utils.py"],
  [("matrices", "run_time_assurance/zoo/cwh/utils.py"), ("constraints", "run_time_assurance/zoo/cwh/docking_*.py")], obs=["constraint values", "filter_control"])
p("C24", "Decisions depend only on the call's inputs and settings",
  "An optimization or cascade-of-optimization module's output and flag for a state, step size and desired control are the same whatever calls came before and whatever other module instances "
  "are doing; no module changes the behaviour of another instance of the same class. An unlatched switching module with a stateless backup controller is likewise history independent.",
  ["histories", "schedules"], "all histories and interleavings of several instances",
  NOASSERT, [RT + "base.py", RT + "asif.py", RT + "simplex.py"], [("per-call matrices", RT + "asif.py"), ("per-instance state", RT + "base.py")], obs=["filter_control return value", "intervening"])
p("C25", "State wrappers read and write the named component only",
  "A state wrapper copies the vector it is given; each named getter returns its own component, each setter changes exactly that component and nothing else "
  "(in the wrapper only, never in the caller's vector), and the size is the vector's length.",
  ["inputs", "histories"], "all state wrappers, sequences of reads and writes",
  NOASSERT + "No test uses the wrappers.", ["run_time_assurance/state.py", "run_time_assurance/zoo/integrators/integrator_1d.py", "run_time_assurance/zoo/cwh/docking_2d.py", "run_time_assurance/zoo/cwh/docking_3d.py", "run_time_assurance/zoo/cwh/inspection_1v1.py"],
  [("properties", "RTAStateWrapper subclasses")], obs=["getters", "setters"])
p("C26", "Inspection safety constraints evaluate the documented geometry",
  "The inspection modules' constraints evaluate their documented functions: chief and deputy collision and maximum distance as signed square-root braking distance combined with closing speed, "
  "sun avoidance as the angle to a moving cone, passive safety as the minimum distance over the coasting trajectory; their logged values are the plain distance or angle margins. Each "
  "deputy constraint refers to its own deputy, and module parameters (radii, limits, field of view, mass, mean motion) reach the constraints.",
  ["inputs", "configurations"], "all states, parameters, deputies",
  NOASSERT, ["run_time_assurance/zoo/cwh/inspection_1v1.py", "run_time_assurance/zoo/cwh/inspection_3d.py"], [("formulas", "ConstraintCWH* classes")], obs=["constraint values", "logged values"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
