"""Sources of the planted bugs (edits against /repo HEAD, demonstrations).  Not used by any check."""
HEAD = '''import sys, warnings
from collections import OrderedDict
import numpy as np, jax.numpy as jnp
warnings.simplefilter('ignore')
from run_time_assurance.constraint import *
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta import *


class Back(RTABackupController):
    """memoryless backup controller u = k x + c"""
    def __init__(self, k=-1., c=0., n=1):
        self.k, self.c, self.n = k, c, n
        super().__init__()
    def _generate_control(self, state, step_size, controller_state=None):
        return self.k * state[:self.n] + self.c, None


class Counter(RTABackupController):
    """stateful backup controller: returns seq[number of times used]"""
    def __init__(self, seq):
        self.seq = jnp.array(seq)
        super().__init__(jnp.array([0.]), jit_enable=False)
    def _generate_control(self, state, step_size, controller_state=None):
        i = jnp.minimum(controller_state[0], len(self.seq) - 1).astype(int)
        return self.seq[i], controller_state + 1.


def module(base, cons, direct=None, f=None, g=None, n=1, **kw):
    """a module of class base for dx = f(x) + g(x) u (Euler prediction)"""
    f = f or (lambda x: jnp.zeros(n))
    g = g or (lambda x: jnp.eye(n))
    class M(base):
        def _setup_constraints(self): return OrderedDict(cons())
        def _setup_direct_constraints(self): return OrderedDict(direct() if direct else [])
        def state_transition_system(self, state): return f(state)
        def state_transition_input(self, state): return g(state)
        def next_state_differentiable(self, state, step_size, control): return state + step_size * (f(state) + g(state) @ control)
        def _pred_state(self, state, step_size, control): return state + step_size * (f(state) + g(state) @ control)
    if issubclass(base, (ExplicitASIFModule, ImplicitASIFModule, DiscreteASIFModule)):
        kw.setdefault('control_dim', n)
    return M(**kw)


def A(*v): return np.array(v, dtype=float)
P = PolynomialConstraintStrengthener
def expect(c, msg):
    if not c:
        print('property broken:', msg); sys.exit(1)
'''
B = 'run_time_assurance/rta/base.py'
SX = 'run_time_assurance/rta/simplex.py'
AS = 'run_time_assurance/rta/asif.py'
CO = 'run_time_assurance/constraint.py'
CT = 'run_time_assurance/controller.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


seed('latch-carry', 'C06', 'a latch time that is not a multiple of the step size, and a second trip right after the first latch expired',
     'the second latch period is shortened by the overshoot of the first one',
     [(SX, "                self.latched_elapsed = 0\n            else:", "                self.latched_elapsed -= self.latch_time\n            else:")], '''
r = module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Back(), latch_time=2.5)
seq = [r.filter_control(A(3.), 1., A(5.)) is not None and r.intervening for _ in range(5)]     # trip, 3 latched calls, trip again
flags = []
for _ in range(4):
    r.filter_control(A(0.), 1., A(0.)); flags.append(r.intervening)
expect(flags == [True, True, True, False], flags)
''')

seed('lookahead-early-exit', 'C08', 'a stateful backup controller and a look-ahead whose trajectory becomes unsafe before its end, later followed by a returned backup control',
     'the memory advanced by the abandoned look-ahead is kept',
     [(SX, """            traj_states.append(state)

        self.backup_controller_restore()
""", """            traj_states.append(state)
            if not self._integrate_jitted and bool(self._constraint_violation_fn(state[None, :], self.params, self.constraint_enabled_dict)):
                # the verdict is known, no need to look further ahead
                return jnp_stack_jit(traj_states, axis=0)

        self.backup_controller_restore()
"""), (SX, """        super().compose()
        if self.jit_enable and self.jit_compile_dict.get('integrate', False):
""", """        super().compose()
        self._integrate_jitted = self.jit_enable and self.jit_compile_dict.get('integrate', False)
        if self._integrate_jitted:
""")], '''
r = module(ImplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Counter([[1.], [2.], [3.], [4.], [5.], [6.]]), backup_window=4.)
out = float(r.filter_control(A(1.), 1., A(0.))[0])
expect(r.intervening and out == 1., out)
''')

seed('disabled-clears-flag', 'C02', 'a latched switching module that is disabled for a while and re-enabled during its latch period',
     'filtering while disabled drops the latch, so the module does not resume the backup after re-enabling',
     [(B, "        else:\n            self.control_actual = np.copy(control_desired)\n", "        else:\n            self.intervening = False\n            self.control_actual = np.copy(control_desired)\n")], '''
r = module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Back(), latch_time=5.)
r.filter_control(A(3.), 1., A(5.))
r.enable = False
r.filter_control(A(2.), 1., A(0.))
r.enable = True
out = r.filter_control(A(2.), 1., A(0.5))
expect(r.intervening and float(out[0]) == -2., out)
''')

seed('negative-side-unbiased', 'C09', 'a constraint with a negative bias at a state where the plain function is >= 0 but the biased one is < 0',
     'the wrong strengthening function is used in the band between the biased and the unbiased boundary',
     [(AS, "                constraint_val < 0,\n", "                c.phi(state, c_params) < 0,\n")], '''
r = module(ExplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(3., 0, alpha=P([0, 1.]), alpha_negative=P([0, 4.]), bias=-1., bias_negative=0.))])
out = float(r.filter_control(A(2.5), 1., A(5.))[0])          # h = -0.5: u <= 4 h = -2
expect(abs(out + 2.) < 1e-4, out)
''')

seed('params-by-reference', 'C11', 'replacing the parameter dictionary of a constraint between calls (in-place changes still work)',
     'the module keeps using the parameter dictionary it saw at construction',
     [(B, """            self.params[k] = c.params
""", """            if self.params[k] is None:
                self.params[k] = c.params  # shared, changes are seen through the reference
""")], '''
r = module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Back())
r.filter_control(A(0.), 1., A(2.)); expect(not r.intervening, 'inside')
r.constraints['m'].params = {'limit_val': 1.}
r.filter_control(A(0.), 1., A(2.)); expect(r.intervening, 'new limit ignored')
''')

seed('keep-last-of-subsample', 'C14', 'subsampling with keep_last and a skip length that does not land on the final trajectory point (or num_least)',
     'the last point of the backup trajectory is not enforced',
     [(AS, """                    (tmp_ineq_weight_barrier, ineq_weight_barrier[num_steps * (i + 1) - 1, :][None]), axis=0
""", """                    (tmp_ineq_weight_barrier, tmp_ineq_weight_barrier[-1, :][None]), axis=0
"""), (AS, """                    (tmp_ineq_constant_barrier, ineq_constant_barrier[num_steps * (i + 1) - 1][None]), axis=0
""", """                    (tmp_ineq_constant_barrier, tmp_ineq_constant_barrier[-1][None]), axis=0
""")], '''
mk = lambda **s: module(ImplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(8., 0, alpha=P([0, 1.]), **s))], backup_controller=Back(0., 1.),
                        backup_window=3., integration_method='Euler')
# points 0..3: h = 8 - (x + k); last point gives u <= h(3) = 1 at x = 4 (constant drift sensitivity 1)
out = float(mk(num_check_all=0, skip_length=2, keep_last=True).filter_control(A(4.), 1., A(9.))[0])
expect(abs(out - 1.) < 1e-3, out)
''')

seed('bound-names-interleaved', 'C20', 'both bounds and a control vector of length two or more, with a bound as the binding condition',
     'the reported cause names another actuator bound than the binding one',
     [(AS, """            for i in range(self.control_dim):
                self.constraint_names.append('u' + str(i + 1) + '_min')

        if self.control_bounds_high is not None:
""", """            for i in range(self.control_dim):
                self.constraint_names.append('u' + str(i + 1) + '_min')
                if self.control_bounds_high is not None:
                    self.constraint_names.append('u' + str(i + 1) + '_max')

        if self.control_bounds_high is not None:
"""), (AS, """            for i in range(self.control_dim):
                self.constraint_names.append('u' + str(i + 1) + '_max')
""", """            if self.control_bounds_low is None:
                for i in range(self.control_dim):
                    self.constraint_names.append('u' + str(i + 1) + '_max')
""")], '''
r = module(ExplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(90., 0, alpha=P([0, 1.])))], n=2, control_bounds_low=-1., control_bounds_high=1.)
r.filter_control(A(0., 0.), 1., A(5., 0.))
expect(list(r.constraints_causing_intervention) == ['u1_max'], r.constraints_causing_intervention)
''')

seed('slack-weights-reversed', 'C10', 'two or more softened constraints with different priorities that conflict',
     'the constraint with the lower priority is kept and the one with the higher priority is given up',
     [(AS, "self.obj_weight[i + self.control_dim] = np.sqrt(c.slack_priority_scale)", "self.obj_weight[-1 - i] = np.sqrt(c.slack_priority_scale)")], '''
r = module(ExplicitASIFModule, lambda: [('low', ConstraintMaxStateLimit(0., 0, alpha=P([0, 1.]), slack_priority_scale=1e4)),
                                        ('high', ConstraintMinStateLimit(4., 0, alpha=P([0, 1.]), bias_negative=0., alpha_negative=P([0, 1.]), slack_priority_scale=1e12))])
out = float(r.filter_control(A(0.), 1., A(1.))[0])     # low: u <= 0, high: u >= 4
expect(abs(out - 4.) < 0.1, out)
''')

seed('one-sided-clip', 'C01', 'a module with only one of the two bounds whose optimization problem is infeasible (or whose solver fails)',
     'the desired control is returned outside the bound',
     [(B, """        if self.control_bounds_low is not None or self.control_bounds_high is not None:
            control = np.clip(control, self.control_bounds_low, self.control_bounds_high)  # type: ignore
""", """        if self.control_bounds_low is not None and self.control_bounds_high is not None:
            control = np.clip(control, self.control_bounds_low, self.control_bounds_high)  # type: ignore
""")], '''
r = module(ExplicitASIFModule, lambda: [('a', ConstraintMaxStateLimit(0., 0, alpha=P([0, 1.]))), ('b', ConstraintMinStateLimit(5., 0, alpha=P([0, 1.])))], control_bounds_high=1.)
out = float(r.filter_control(A(0.), 1., A(7.))[0])
expect(out <= 1., out)
''')

seed('telemetry-enabled-only', 'C12', 'a disabled constraint', 'disabled constraints disappear from the logged constraint values',
     [(B, "for k, v in self.constraints.items()}\n        if stale:", "for k, v in self.constraints.items() if v.enabled}\n        if stale:")], '''
r = module(ExplicitASIFModule, lambda: [('a', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.]))), ('b', ConstraintMinStateLimit(-5., 0, alpha=P([0, 1.]), enabled=False))])
r.filter_control(A(0.), 1., A(7.))
expect(r.generate_info()['constraints_at_last_state'] == {'a': 4., 'b': 5.}, r.generate_info())
''')

seed('selection-list-order', 'C16', 'a list of constraints to use that is not in the defined order', 'constraints are enforced and reported in list order',
     [(B, """            for k in self.constraints.keys():
                if k in constraints_to_use:
                    new_constraints[k] = self.constraints[k]
""", """            for k in constraints_to_use:
                if k in self.constraints:
                    new_constraints[k] = self.constraints[k]
""")], '''
r = module(ExplicitASIFModule, lambda: [('a', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.]))), ('b', ConstraintMinStateLimit(-5., 0, alpha=P([0, 1.])))], constraints_to_use=['b', 'a'])
expect(list(r.constraints) == ['a', 'b'], list(r.constraints))
r.filter_control(A(0.), 1., A(0.))
expect(list(r.generate_info()['constraints_at_last_state']) == ['a', 'b'], 'order')
''')

seed('discrete-alpha-scaled', 'C15', 'a step size other than one second', 'the one-step barrier is strengthened by the wrong amount',
     [(CO, """        h = (self.constraint(next_state, params) - self.constraint(state, params)) / step_size + self.constraint.alpha(
            self.constraint(state, params)
        )
""", """        h = (self.constraint(next_state, params) - self.constraint(state, params) + self.constraint.alpha(
            self.constraint(state, params)
        )) / step_size
""")], '''
r = module(DiscreteASIFModule, lambda: [('a', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.])))])
out = float(r.filter_control(A(2.), 2., A(7.))[0])      # u <= alpha(h) = 2
expect(abs(out - 2.) < 1e-2, out)
''')
I1 = 'run_time_assurance/zoo/cwh/inspection_1v1.py'
I3 = 'run_time_assurance/zoo/cwh/inspection_3d.py'
D2 = 'run_time_assurance/zoo/cwh/docking_2d.py'
D3 = 'run_time_assurance/zoo/cwh/docking_3d.py'
IN = 'run_time_assurance/zoo/integrators/integrator_1d.py'
ST = 'run_time_assurance/utils/sample_testing.py'
SW = 'run_time_assurance/state.py'

seed('violation-tolerance', 'C03', 'a predicted constraint value that is negative by less than 1e-4',
     'a slightly unsafe desired control is passed',
     [(SX, "jnp.any(traj_constraint_vals < 0)", "jnp.any(traj_constraint_vals < -1e-4)")], '''
r = module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Back())
r.filter_control(A(2.), 1., A(1.00005))
expect(r.intervening, 'predicted state 3.00005 exceeds the limit 3')
''')

seed('short-check-while-intervening', 'C04', 'an implicit switching module that is already intervening and a desired control that is safe for some steps only',
     'while intervening, only the first half of the backup trajectory is certified before the desired control is passed again',
     [(SX, """        traj_states = self._integrate_fn(state, step_size, control)

        return bool(""", """        traj_states = self._integrate_fn(state, step_size, control)
        if intervening:
            # the backup trajectory was certified when the module switched, look at the near part only
            traj_states = traj_states[:max(2, len(traj_states) // 2)]

        return bool(""")], '''
mk = lambda: module(ImplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(10., 0))], backup_controller=Back(k=0., c=1.), backup_window=4.)
r = mk()
r.filter_control(A(0.), 1., A(20.)); expect(r.intervening, 'should intervene')
r.filter_control(A(0.), 1., A(7.)); expect(r.intervening, '7, 8, 9, 10, 11: unsafe at the end of the window')
''')

seed('lookahead-unclipped-backup', 'C04', 'a backup controller whose raw output exceeds the control bounds',
     'the look-ahead follows the raw backup control, which the actuators cannot deliver',
     [(SX, """            control = self.backup_control(state, step_size)
            state = self._pred_state_fn(state, step_size, control)
            traj_states.append(state)
""", """            control = self.backup_controller.generate_control(state, step_size)
            state = self._pred_state_fn(state, step_size, control)
            traj_states.append(state)
""")], '''
f = lambda x: jnp.array([2.])
r = module(ImplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(5., 0))], f=f, backup_controller=Back(k=0., c=-4.), backup_window=2., control_bounds_low=-1., control_bounds_high=1.)
r.filter_control(A(1.), 1., A(1.)); expect(r.intervening, '4, 5, 6 under the bound-limited backup')
''')

seed('free-call-after-latch', 'C05', 'a module with a latch time, at the call where the latch expires, and an unsafe desired control',
     'the first call after an expired latch is not monitored',
     [(SX, """            if self.latched_elapsed >= self.latch_time:
                self.latched_elapsed = 0
            else:""", """            if self.latched_elapsed >= self.latch_time:
                self.latched_elapsed = 0
                if self.latch_time > 0:
                    self.intervening = False
                    return control
            else:""")], '''
r = module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Back(), latch_time=2.)
x = 2.
for _ in range(8):
    x = x + float(r.filter_control(A(x), 1., A(4.))[0])
    expect(x <= 3., x)
''')

seed('reset-memory-if-intervening', 'C07', 'a stateful backup controller that has been used, and a reset at a time when the module is not intervening',
     'the backup controller keeps its memory across the reset',
     [(SX, """        super().reset()
        self.latched_elapsed = 0.
        self.reset_backup_controller()
""", """        if self.intervening:
            self.reset_backup_controller()
        super().reset()
        self.latched_elapsed = 0.
""")], '''
mk = lambda: module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Counter([[1.], [2.], [3.], [4.]]))
r = mk()
r.filter_control(A(3.), 1., A(5.)); r.filter_control(A(0.), 1., A(0.)); expect(not r.intervening, 'released')
r.reset()
out = float(r.filter_control(A(3.), 1., A(5.))[0])
expect(out == 1., out)
''')

seed('save-once', 'C08', 'two look-aheads of a stateful backup controller with a returned backup control in between',
     'the second look-ahead restores the memory saved by the first one',
     [(CT, "        self.controller_state_saved = self._copy_controller_state(self.controller_state)\n",
       "        if self.controller_state_saved is None:\n            self.controller_state_saved = self._copy_controller_state(self.controller_state)\n")], '''
c = Counter([[1.], [2.], [3.], [4.]])
r = module(ImplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(30., 0))], backup_controller=c, backup_window=2., jit_enable=False)
outs = [float(r.filter_control(A(0.), 1., A(50.))[0]) for _ in range(3)]
expect(outs == [1., 2., 3.], outs)
''')

seed('epsilon-max-norm', 'C09', 'a correction that is below epsilon in every component but above it in norm',
     'the intervention is not reported',
     [(AS, "return bool(np.linalg.norm(desired_control - actual_control) > self.epsilon)", "return bool(np.max(np.abs(desired_control - actual_control)) > self.epsilon)")], '''
r = module(ExplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(90., 0, alpha=P([0, 1.])))], n=2, epsilon=1., control_bounds_low=-1., control_bounds_high=1.)
r.filter_control(A(0., 0.), 1., A(1.8, 1.8))
expect(r.intervening, 'moved by 1.13 > epsilon = 1')
''')

seed('discrete-slack-by-position', 'C10', 'a discrete module whose softened constraints are not the first ones',
     'softened constraints share a slack variable, so giving one up gives up the other',
     [(AS, """                slack_idx = slack_counter
                slack_counter += 1
""", """                slack_idx = list(self.constraints.keys()).index(k)
                slack_counter += 1
""")], '''
r = module(DiscreteASIFModule, lambda: [('z', ConstraintMaxStateLimit(90., 0, alpha=P([0, 1.]))),
                                        ('low', ConstraintMaxStateLimit(0., 0, alpha=P([0, 1.]), slack_priority_scale=1e2)),
                                        ('high', ConstraintMinStateLimit(4., 0, alpha=P([0, 1.]), slack_priority_scale=1e6))])
out = float(r.filter_control(A(2.), 1., A(0.))[0])     # low: u <= -2, high: u >= 2
expect(abs(out - 2.) < 0.2, out)
''')

seed('direct-params-late', 'C11', 'a direct inequality whose parameters or enabled flag are changed between two calls',
     'the change takes effect one call late',
     [(AS, """        self._update_direct_inequality_params()
        ineq_weight, ineq_constant = self._generate""", """        ineq_weight, ineq_constant = self._generate"""),
      (AS, """        self.intervening = self.monitor(desired_control, actual_control)

        return to_jnp_array_jit(actual_control)

    def _generate_actuation""", """        self.intervening = self.monitor(desired_control, actual_control)
        self._update_direct_inequality_params()

        return to_jnp_array_jit(actual_control)

    def _generate_actuation""")], '''
class D(DirectInequalityConstraint):
    def ineq_weight(self, state, params): return jnp.array([1.])
    def ineq_constant(self, state, params): return params['c']
r = module(ExplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(90., 0, alpha=P([0, 1.])))], direct=lambda: [('d', D(params={'c': 2.}))])
expect(abs(float(r.filter_control(A(0.), 1., A(0.))[0]) - 2.) < 1e-3, 'first')
r.direct_inequality_constraints['d'].params = {'c': 5.}
out = float(r.filter_control(A(0.), 1., A(0.))[0])
expect(abs(out - 5.) < 1e-3, out)
''')

seed('desired-by-reference', 'C12', 'a caller that reuses its control buffer after the call and then reads the info dictionary',
     'the reported desired control changes with the caller\'s buffer',
     [(B, "        self.control_desired = np.copy(control_desired)\n", "        self.control_desired = np.asarray(control_desired)\n")], '''
r = module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Back())
u = A(1.)
r.filter_control(A(0.), 1., u)
u[0] = 9.
expect(float(r.generate_info()['control_desired'][0]) == 1., r.generate_info())
''')

seed('cascade-by-distance', 'C13', 'stages whose corrections cancel, or a stage that intervenes without changing the control much',
     'the cascade does not report the intervention of its stages',
     [(B, """            if rta.intervening:
                self.intervening = True

        return control
""", """        self.intervening = bool(np.linalg.norm(control - control_desired) > 1e-2)

        return control
""")], '''
s1 = module(ExplicitASIFModule, lambda: [('a', ConstraintMaxStateLimit(1., 0, alpha=P([0, 1.])))])
s2 = module(ExplicitASIFModule, lambda: [('a', ConstraintMinStateLimit(3., 0, alpha=P([0, 1.]), alpha_negative=P([0, 1.]), bias_negative=0.))])
class C(CascadedRTA):
    def _setup_rta_list(self): return [s1, s2]
c = C()
out = float(c.filter_control(A(0.), 1., A(3.))[0])
expect(abs(out - 3.) < 1e-3 and s1.intervening and s2.intervening and c.intervening, (out, c.intervening))
''')

seed('jacobian-initial-memory', 'C14', 'an implicit optimization module with a backup controller whose gain depends on its memory, after the memory has changed along the trajectory',
     'the trajectory sensitivity is that of a controller with its initial memory',
     [(AS, "traj_jac = self.jacobian(state, step_size, self.backup_controller.controller_state)", "traj_jac = self.jacobian(state, step_size, self.backup_controller.controller_state_initial)")], '''
class Gain(RTABackupController):
    def __init__(self): super().__init__(jnp.array([0.]), jit_enable=False)
    def _generate_control(self, state, step_size, controller_state=None):
        return -controller_state[0] * state, controller_state + 0.5
r = module(ImplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.]), subsample_constraints_num_least=1, keep_last=True))], backup_controller=Gain(), backup_window=2.,
           integration_method='Euler', jit_enable=False)
# trajectory 2, 2, 1 (gains 0, 1/2); sensitivities 1, 1-1/2, (1-1/2)(1-1); bound: u <= 2 at the start point, 2/0.5 = 4 at the second
out = float(r.filter_control(A(2.), 1., A(7.))[0])
r2 = module(ImplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.]), num_check_all=-1, skip_length=5, keep_last=True))], backup_controller=Gain(), backup_window=1.,
            f=lambda x: jnp.array([0.]), g=lambda x: jnp.array([[1.]]), integration_method='Euler', jit_enable=False)
r3 = module(ImplicitASIFModule, lambda: [('a', ConstraintMaxStateLimit(90., 0, alpha=P([0, 1.]))), ('m', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.]), subsample_constraints_num_least=1))], backup_controller=Gain(), backup_window=2.,
            f=lambda x: jnp.array([1.]), integration_method='Euler', jit_enable=False)
# x: 0, 1, 2 - 0.5; memories used by the jacobian at the 2nd and 3rd point: 0.5, 1.0
r4 = module(ImplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.]), subsample_constraints_num_least=1))], backup_controller=Gain(), backup_window=1.,
            f=lambda x: jnp.array([1.]), integration_method='Euler', jit_enable=False)
out = float(r4.filter_control(A(0.), 1., A(20.))[0])    # least point: x = 1, sensitivity 1 + (-0.5) = 0.5:  0.5 (1 + u) <= 3
expect(abs(out - 5.) < 1e-2, out)
''')

seed('selection-prefix', 'C16', 'a module that defines a constraint whose name starts with the name of a selected one',
     'constraints that were not named are kept',
     [(B, "                if k in constraints_to_use:\n", "                if any(k.startswith(name) for name in constraints_to_use):\n")], '''
mk = lambda: [('lim', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.]))), ('lim_low', ConstraintMinStateLimit(-5., 0, alpha=P([0, 1.])))]
r = module(ExplicitASIFModule, mk, constraints_to_use=['lim'])
expect(list(r.constraints) == ['lim'], list(r.constraints))
''')

seed('uncompiled-unbiased', 'C17', 'compilation switched off and a biased constraint whose predicted value lies between zero and the bias',
     'without compilation the bias is not enforced',
     [(SX, "traj_constraint_vals.append(constraint.compute(state, params))", "traj_constraint_vals.append(constraint.phi(state, params))")], '''
mk = lambda j: module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0, bias=-1.))], backup_controller=Back(), jit_enable=j)
flags = []
for j in (True, False):
    r = mk(j); r.filter_control(A(2.), 1., A(0.5)); flags.append(r.intervening)
expect(flags == [True, True], flags)
''')

seed('last-state-unjudged', 'C18', 'an episode that becomes unsafe exactly in its last step',
     'the episode is recorded as safe',
     [(ST, """            done = self._check_done_conditions(state, current_time)

            for c in self.rta.constraints.values():""", """            done = self._check_done_conditions(state, current_time)
            if done:
                break

            for c in self.rta.constraints.values():""")], '''
import csv, glob, os, tempfile
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule
class T(SafetyAssuranceSampleTestingModule):
    def _get_initial_state(self): return A(0.)
    def _pred_state(self, state, step_size, control): return state + 1.
r = module(ExplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(2., 0))], backup_controller=Back())
with tempfile.TemporaryDirectory() as d:
    T(simulation_time=3., step_size=1., control_dim=1, state_dim=1, rta=r, n_points=1).run_sample_test(d)
    rows = list(csv.reader(open(glob.glob(os.path.join(d, '*.csv'))[0])))
expect(rows[0][0] == 'False', rows)
''')

seed('hocbf-own-strengthener', 'C19', 'a higher-order constraint of relative degree three (or more) whose base constraint has another strengthener',
     'the intermediate links of the chain use the base constraint\'s strengthener',
     [(CO, "state_transition_system=state_transition_system, alpha=alpha\n            )", "state_transition_system=state_transition_system,\n                alpha=alpha if i == relative_degree - 1 else constraint._alpha\n            )")], '''
f = lambda x: jnp.array([x[1], x[2], 0.])
h = HOCBFConstraint(ConstraintMaxStateLimit(10., 0, alpha=P([0, 5.])), 3, f, P([0, 1.]))
# psi1 = -v + (10 - x), psi2 = -a - v + psi1
val = float(h(jnp.array([1., 2., 3.]), h.params))
expect(abs(val - (-3. - 2. + (-2. + 9.))) < 1e-4, val)
''')

seed('causes-by-residual', 'C20', 'a condition that is met with equality at the desired control without pushing on it',
     'conditions that do not cause the correction are listed',
     [(AS, """            for i in opt[5]:
                key = self.constraint_names[i - 1]
""", """            residual = np.array(ineq_weight, dtype=np.float64).T @ u - np.array(ineq_constant, dtype=np.float64)
            for i in np.nonzero((np.abs(residual) < 1e-6) & np.any(np.array(ineq_weight) != 0, axis=0))[0] + 1:
                key = self.constraint_names[i - 1]
""")], '''
r = module(ExplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(1., 0, alpha=P([0, 1.])))], n=2, control_bounds_low=-2., control_bounds_high=2.)
r.filter_control(A(0., 0.), 1., A(4., 2.))
expect(list(r.constraints_causing_intervention) == ['m'], r.constraints_causing_intervention)
''')

seed('agents-rotated', 'C21', 'three or more agents',
     'the other agents are rotated instead of keeping their order',
     [(I3, """        x_old = np.delete(state, np.s_[6 * i : 6 * i + 6], 0)
        x = np.concatenate((x_i, x_old))
""", """        agents = np.reshape(state[: 6 * self.num_deputies], (self.num_deputies, 6))
        x_old = np.roll(agents, -i, axis=0)[1:].flatten()
        x = np.concatenate((x_i, x_old, state[6 * self.num_deputies :]))
""")], '''
from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA
class Probe(RTAModule):
    def __init__(self): self.seen = []; super().__init__()
    def compute_filtered_control(self, state, dt, u): self.seen.append(np.array(state)); return u
p = Probe()
c = CombinedInspectionRTA(num_deputies=3, deputy_rta=p)
c.filter_control(np.arange(19.), 1., np.zeros(9))
expect([list(s[::6]) for s in p.seen] == [[0., 6., 12., 18.], [6., 0., 12., 18.], [12., 0., 6., 18.]], p.seen)
''')

seed('delta-v-lookahead-integral', 'C22', 'a tripped (or about to trip) module whose error integral matters, after at least one passed control',
     'the error integral advances during prediction',
     [(I1, """                ub, error_integral = self.backup_control(
                    pred_state, step_size, error_integral
                )
                pred_state""", """                ub = self.backup_control(pred_state, step_size, error_integral)[0]
                error_integral += self.backup_error(pred_state) * step_size
                pred_state"""),
      (I1, """    def backup_control(self, state, step_size, error_integral):
        \"\"\"LQT backup controller to eNMT\"\"\"
        error = np.array(""", """    def backup_error(self, state):
        \"\"\"Velocity error with respect to the eNMT\"\"\"
        return np.array("""),
      (I1, """                0,
            ]
        )
        backup_action = -self.K_1 @ error""", """                0,
            ]
        )

    def backup_control(self, state, step_size, error_integral):
        \"\"\"LQT backup controller to eNMT\"\"\"
        error = self.backup_error(state)
        backup_action = -self.K_1 @ error""")], '''
from run_time_assurance.zoo.cwh.inspection_1v1 import SwitchingDeltaVLimitRTA
import scipy.linalg
G = np.zeros((12, 12)); G[3:6, 3:6] = G[3:6, 9:12] = 12. * 1e5 * np.eye(3)       # gains K1 = K2 = identity on the velocities
scipy.linalg.solve_continuous_are = lambda *a, **k: G
mk = lambda: SwitchingDeltaVLimitRTA(m=12., n_steps=3, delta_v_limit=5.)
x = np.array([100., 50., 0., .5, -.3, 0., 0., 0.])
y = x.copy(); y[7] = 20.
a, b = mk(), mk()
a.filter_control(x, 1., np.zeros(3)); a.filter_control(x, 1., np.zeros(3))
ua, ub = a.filter_control(y, 1., np.zeros(3)), b.filter_control(y, 1., np.zeros(3))
expect(a.intervening and b.intervening and np.allclose(ua, ub, atol=1e-9), (ua, ub))
''')

seed('docking3d-z-limit', 'C23', 'a 3D docking module with a z velocity limit different from the y limit',
     'the z velocity is limited by the y limit',
     [(D3, "ConstraintMagnitudeStateLimit(limit_val=z_vel_limit, state_index=5)", "ConstraintMagnitudeStateLimit(limit_val=y_vel_limit, state_index=5)")], '''
from run_time_assurance.zoo.cwh.docking_3d import Docking3dExplicitSwitchingRTA
r = Docking3dExplicitSwitchingRTA(z_vel_limit=2., y_vel_limit=8., v0=100.)
r.filter_control(A(100., 100., 100., 0., 0., 3.), 1., A(0., 0., 0.))
expect(r.intervening, 'z velocity 3 exceeds its limit 2')
''')

seed('shared-actuation-rows', 'C24', 'two instances of one module class with different control bounds',
     'the second instance optimizes within the bounds of the first one',
     [(AS, """        self.ineq_weight_actuation, self.ineq_constant_actuation = self._generate_actuation_constraint_mats()
""", """        mats = type(self).__dict__.get('_actuation_mats', (None, None, None))
        if mats[0] == self.num_slack:
            # same class, same number of slack variables: the rows have been built before
            self._generate_actuation_constraint_mats()
        else:
            mats = (self.num_slack, *self._generate_actuation_constraint_mats())
            type(self)._actuation_mats = mats
        _, self.ineq_weight_actuation, self.ineq_constant_actuation = mats
""")], '''
class M(ExplicitASIFModule):
    def _setup_constraints(self): return OrderedDict([('m', ConstraintMaxStateLimit(1., 0, alpha=P([0, 1.])))])
    def state_transition_system(self, state): return jnp.zeros(2)
    def state_transition_input(self, state): return jnp.array([[1., 1.], [0., 1.]])
a = M(control_dim=2, control_bounds_low=[-1., -9.], control_bounds_high=[1., 9.])
b = M(control_dim=2, control_bounds_low=[-9., -9.], control_bounds_high=[9., 9.])
out = b.filter_control(A(0., 0.), 1., A(6., -5.5))      # admissible: 6 - 5.5 <= 1
expect(np.allclose(out, [6., -5.5], atol=1e-4), out)
''')

seed('wrapper-shares-vector', 'C25', 'a caller that changes the array it wrapped',
     'the wrapper changes with the caller\'s array',
     [(SW, "        self.vector = jnp.copy(vector)\n", "        self.vector = vector if isinstance(vector, jnp.ndarray) else np.asarray(vector).view(_Vector)\n"),
      (SW, "import jax.numpy as jnp\n", """import jax.numpy as jnp
import numpy as np


class _Vector(np.ndarray):
    \"\"\"numpy vector with the functional update interface of jax arrays\"\"\"

    class _At:
        def __init__(self, vector, index=None):
            self.vector, self.index = vector, index

        def __getitem__(self, index):
            return _Vector._At(self.vector, index)

        def set(self, val):
            \"\"\"returns an updated copy\"\"\"
            out = self.vector.copy()
            out[self.index] = val
            return out

    @property
    def at(self):
        \"\"\"index helper\"\"\"
        return _Vector._At(self)
""")], '''
from run_time_assurance.zoo.cwh.docking_2d import Docking2dState
v = A(1., 2., 3., 4.)
s = Docking2dState(v)
v[0] = 9.
expect(float(s.x) == 1., s.x)
''')

seed('deputy-late-binding', 'C26', 'three or more deputies',
     'every deputy sun constraint refers to the last deputy',
     [(I3, "get_pos=partial(self.get_p1_p2, i),", "get_pos=lambda state: self.get_p1_p2(i, state),"),
      (I3, "get_vel=partial(self.get_v1_v2, i),", "get_vel=lambda state: self.get_v1_v2(i, state),")], '''
from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
r = InspectionRTA(num_deputies=3)
x = np.zeros(19)
x[0:3] = [100., 0., 0.]; x[6:9] = [0., 100., 30.]; x[12:15] = [0., 0., 200.]
r.update_constraint_values(x)
v = r.constraint_values
sun = -np.array([1., 0., 0.])
def ang(p):
    p = p / np.linalg.norm(p)
    a = np.arccos(p @ sun)
    return (np.pi - a if a > np.pi / 2 else a) - r.fov / 2
for i in (1, 2):
    expect(abs(v[f'deputy_sun_{i}'] - ang(x[0:3] - x[6 * i:6 * i + 3])) < 1e-2, (i, v))
''')

seed('sensitivity-behind', 'C14', 'an implicit optimization module whose closed-loop Jacobian changes along the backup trajectory (nonlinear drift or backup)',
     'the sensitivities along the backup trajectory use the Jacobian of the previous point',
     [(AS, """            state = self._pred_state_fn(state, step_size, control)
            traj_jac = self.jacobian(state, step_size, self.backup_controller.controller_state)
""", """            traj_jac = self.jacobian(state, step_size, self.backup_controller.controller_state)
            state = self._pred_state_fn(state, step_size, control)
""")], '''
r = module(ImplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(9., 0, alpha=P([0, 1.]), subsample_constraints_num_least=1))], backup_controller=Back(k=0.),
           backup_window=1., f=lambda x: x**2, integration_method='Euler')
# trajectory 1, 2: sensitivity at the second point 1 + 2 * 2 = 5; 5 (1 + u) <= 9 - 2
out = float(r.filter_control(A(1.), 1., A(20.))[0])
expect(abs(out - (7. / 5. - 1.)) < 1e-2, out)
''')

seed('input-matrix-along', 'C14', 'an implicit optimization module whose input matrix depends on the state, with a condition that binds at a later trajectory point',
     'the effect of the control is taken at the trajectory point instead of the current state',
     [(AS, "g_x0 = self.state_transition_input(initial_state)", "g_x0 = self.state_transition_input(traj_state)")], '''
r = module(ImplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(9., 0, alpha=P([0, 1.]), subsample_constraints_num_least=1))], backup_controller=Back(k=0.),
           backup_window=1., f=lambda x: jnp.ones(1), g=lambda x: jnp.array([[1. + x[0]]]), integration_method='Euler')
# trajectory 0, 1: at the second point (1 + (1 + 0) u) <= 9 - 1
out = float(r.filter_control(A(0.), 1., A(20.))[0])
expect(abs(out - 7.) < 1e-2, out)
''')

seed('higher-order-captured', 'C11', 'a higher-order constraint whose limit is changed after the first call of a compiled module',
     'part of the enforced condition keeps the limit of the first call',
     [(CO, "+ self.alpha(self.constraint(state, params))", "+ self.alpha(self.constraint(state, self.params))")], '''
f = lambda x: jnp.array([x[1], 0.])
r = module(ExplicitASIFModule, lambda: [('p', HOCBFConstraint(ConstraintMaxStateLimit(10., 0), 2, f, P([0, 1.])))], f=f, g=lambda x: jnp.array([[0.], [1.]]), control_dim=1)
x = A(0., 4.)
r.filter_control(x, 1., A(9.))
r.constraints['p'].params = {'limit_val': 6.}
out = float(r.filter_control(x, 1., A(9.))[0])     # psi = 6 - x - v = 2;  -v - u + psi >= 0
expect(abs(out - (-2.)) < 1e-3, out)
''')

seed('cascade-inner-bounds', 'C01', 'a cascade with control bounds tighter than those of its last stage, in a call in which some stage intervenes',
     'the cascade returns a control outside its own bounds',
     [(B, """            control_actual = self._clip_control(self.compute_filtered_control(input_state, step_size, control_desired))
""", """            control_actual = self.compute_filtered_control(input_state, step_size, control_desired)
            if not (self.intervening and hasattr(self, 'rta_list')):
                control_actual = self._clip_control(control_actual)
""")], '''
s1 = module(ExplicitASIFModule, lambda: [('m', ConstraintMinStateLimit(2., 0, alpha=P([0, 1.])))])
class C(CascadedRTA):
    def _setup_rta_list(self): return [s1]
c = C(control_bounds_low=-1., control_bounds_high=1.)
out = float(c.filter_control(A(-3.), 1., A(0.))[0])
expect(-1. <= out <= 1., out)
''')

seed('delta-v-by-norm', 'C22', 'a fuel budget that is exceeded by the sum of the thrust magnitudes but not by their norm (thrust on several axes)',
     'the predicted fuel use is too small, so a control is passed that exceeds the budget',
     [(I1, "delta_v_dot = np.array([np.sum(np.abs(control)) / (self.m)])", "delta_v_dot = np.array([np.linalg.norm(control) / (self.m)])")], '''
from run_time_assurance.zoo.cwh.inspection_1v1 import SwitchingDeltaVLimitRTA
import scipy.linalg
scipy.linalg.solve_continuous_are = lambda *a, **k: np.zeros((12, 12))      # no backup thrust
r = SwitchingDeltaVLimitRTA(m=1., n_steps=2, delta_v_limit=5.)
x = np.array([100., 50., 0., .5, -.3, 0., 0., 2.5])
r.filter_control(x, 1., A(1., -1., 1.))       # 2.5 + 3 > 5
expect(r.intervening, 'the budget is exceeded')
''')

seed('lookahead-at-rest', 'C04', 'compilation switched off and a stateful backup controller that rests for a step before it moves on',
     'the look-ahead ends when the state does not change for a step, so later unsafe points are not seen',
     [(SX, """            state = self._pred_state_fn(state, step_size, control)
            traj_states.append(state)
""", """            next_state = self._pred_state_fn(state, step_size, control)
            if not self.jit_enable and bool(jnp.array_equal(next_state, state)):
                break  # settled
            state = next_state
            traj_states.append(state)
""")], '''
r = module(ImplicitSimplexModule, lambda: [('m', ConstraintMaxStateLimit(3., 0))], backup_controller=Counter([[0.], [0.], [2.], [0.]]), backup_window=3., jit_enable=False)
r.filter_control(A(1.), 1., A(1.))       # 2, 2, 2, 4
expect(r.intervening, 'the backup trajectory leaves the safe set')
''')

seed('first-step-failure-resampled', 'C18', 'a module that raises on solver failure and an initially safe sampled state whose very first step is infeasible',
     'the failed episode is not recorded, another state is sampled in its place',
     [(ST, """            except SolverError:
                return False
""", """            except SolverError:
                return False if current_time > 0 else None
""")], '''
import csv, glob, os, tempfile
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule
class T(SafetyAssuranceSampleTestingModule):
    draws = [A(1.), A(0.)]
    def _get_initial_state(self): return self.draws.pop(0)
    def _pred_state(self, state, step_size, control): return state
r = module(ExplicitASIFModule, lambda: [('m', ConstraintMaxStateLimit(2., 0, alpha=P([0, 1.])))], f=lambda x: jnp.where(x > .5, 5., 0.), control_bounds_low=-1., control_bounds_high=1., solver_exception=True)
with tempfile.TemporaryDirectory() as d:
    T(simulation_time=2., step_size=1., control_dim=1, state_dim=1, rta=r, n_points=1).run_sample_test(d)
    rows = list(csv.reader(open(glob.glob(os.path.join(d, '*.csv'))[0])))
expect(rows == [['False', '[1.0]']], rows)
''')

seed('third-slack-shared', 'C10', 'an implicit optimization module with three or more softened constraints',
     'the third softened constraint shares the slack of the second one',
     [(AS, """                slack = slack.at[:, slack_counter].set(-1.)
                slack_counter += 1
""", """                slack = slack.at[:, slack_counter].set(-1.)
                slack_counter = min(slack_counter + 1, max(self.num_slack - 2, 1))
""")], '''
K = lambda i, p: ConstraintMaxStateLimit(0., i, alpha=P([0, 1.]), slack_priority_scale=p)
r = module(ImplicitASIFModule, lambda: [('a', K(0, 1e12)), ('b', K(1, 1e4)), ('c', K(2, 1e12))], n=3, backup_controller=Back(k=0., n=3), backup_window=0.,
           control_bounds_low=-1., control_bounds_high=1., integration_method='Euler')
# b cannot be met (needs u_2 <= -5) and is given up; c can (u_3 <= -0.5) and must be
out = r.filter_control(A(0., 5., 0.5), 1., A(0., 0., 1.))
expect(out[2] <= -0.49, out)
''')

seed('radius-default-authority', 'C26', 'a multi-agent inspection module with a maximum distance other than the default',
     'the braking authority is that of the default maximum distance',
     [(I3, "self.u_max / self.m - 3 * self.n**2 * self.r_max - 2 * self.n * vmax", "self.u_max / self.m - 3 * self.n**2 * R_MAX_DEFAULT - 2 * self.n * vmax")], '''
from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
r = InspectionRTA(num_deputies=2, r_max=20000., n=0.001)
a = float(r.constraints['r_max'].params['a_max'])
b = 1. / 12. - 3 * 1e-6 * 20000. - 2e-3 * min(r.vel_limit, r.v0 + r.v1 * 20000.)
expect(abs(a - b) < 1e-4, (a, b))
''')

seed('lookahead-capped', 'C04', 'a backup window of more than ten steps whose late steps are the only unsafe ones',
     'the look-ahead covers at most ten backup steps',
     [(SX, """        for _ in range(Nsteps):
            control""", """        for _ in range(min(Nsteps, 10)):
            control""")], '''
r = module(ImplicitSimplexModule, lambda: [('top', ConstraintMaxStateLimit(14., 0))], backup_controller=Back(k=0., c=1.), backup_window=15.)
out = r.filter_control(A(0.), 1., A(0.))
expect(float(out[0]) == 1. and r.intervening, (out, r.intervening))      # the backup itself leaves the safe set at its 15th step
out = r.filter_control(A(-2.), 1., A(0.))
expect(float(out[0]) == 0. and not r.intervening, (out, r.intervening))
''')

seed('lookahead-held-control', 'C04', 'a backup controller whose control still changes after the fifth step of the window',
     'from the fifth step on the look-ahead holds the last backup control',
     [(SX, """            control = self.backup_control(state, step_size)
            state""", """            control = self.backup_control(state, step_size) if len(traj_states) < 5 else control
            state""")], '''
r = module(ImplicitSimplexModule, lambda: [('top', ConstraintMaxStateLimit(3., 0))], backup_controller=Counter([[0.]] * 7 + [[9.]] * 3), backup_window=10.)
out = r.filter_control(A(0.), 1., A(1.))
expect(float(out[0]) == 0. and r.intervening, (out, r.intervening))      # the backup leaves the safe set at its 8th step
''')

seed('jacobian-saves-memory', 'C08', 'an implicit optimization module with a stateful backup controller and a look-ahead of five steps or more',
     'the look-ahead overwrites the saved controller memory just before its end',
     [(AS, "traj_jac = self.jacobian(state, step_size, self.backup_controller.controller_state)\n",
       "traj_jac = self.jacobian(state, step_size, self.backup_controller.controller_state)\n            if len(traj_states) == Nsteps - 1 and Nsteps > 4:\n                self.backup_controller_save()\n")], '''
ctl = Counter([[-1.], [0.], [1.], [0.], [1.], [-1.], [2.], [0.], [1.]])
r = module(ImplicitASIFModule, lambda: [('top', ConstraintMaxStateLimit(4., 0, alpha=P([0, 1.])))], backup_controller=ctl, backup_window=6., control_bounds_low=-9., control_bounds_high=9., integration_method='Euler')
for _ in range(3):
    r.filter_control(A(0.), 1., A(1.))
    expect(float(ctl.controller_state[0]) == 0., ctl.controller_state)
''')

seed('negative-side-from-tolerance', 'C09', 'a constraint whose value lies between -0.01 and 0',
     'slightly violated constraints keep the strengthener of the safe side',
     [(AS, "                constraint_val < 0,\n", "                constraint_val < -1e-2,\n")], '''
r = module(ExplicitASIFModule, lambda: [('top', ConstraintMaxStateLimit(0., 0, alpha=P([0, 1.]), alpha_negative=P([0, 100.]), bias_negative=0.))], control_bounds_low=-9., control_bounds_high=9.)
out = r.filter_control(A(2. ** -8), 1., A(0.))
expect(abs(float(out[0]) + 100 * 2. ** -8) < 1e-3, out)
''')

seed('cascade-limits-past-disabled', 'C13', 'a cascade with bounds of its own, a switched-off stage after one that exceeds them and before one that is sensitive to it',
     'the control that passes a switched-off stage is limited to the bounds of the cascade',
     [(B, "            control = np.copy(rta.filter_control(input_state, step_size, control))\n",
       "            control = np.copy(rta.filter_control(input_state, step_size, control if rta.enable else self._clip_control(control)))\n")], '''
S = lambda lim, cls, c: module(ExplicitSimplexModule, lambda: [('l', cls(lim, 0))], backup_controller=Back(k=0., c=c))
class Casc(CascadedRTA):
    def _setup_rta_list(self):
        return [S(1., ConstraintMaxStateLimit, -4.), S(9., ConstraintMaxStateLimit, 0.), S(-2., ConstraintMinStateLimit, 1.)]
r = Casc(control_bounds_low=-1., control_bounds_high=1.)
r.rta_list[1].enable = False
out = r.filter_control(A(0.), 1., A(3.))
expect(float(out[0]) == 1., out)      # -4 reaches the last stage, which answers 1
''')

seed('dictionary-two-entries', 'C08', 'a backup controller whose dictionary memory has more than two entries',
     'copies of the memory keep only two entries',
     [(CT, "copied_state = {k: jnp.copy(v) for k, v in controller_state.items()}",
       "copied_state = {k: jnp.copy(controller_state[k]) for k in sorted(controller_state)[:2]} if len(controller_state) > 2 else {k: jnp.copy(v) for k, v in controller_state.items()}")], '''
class Three(RTABackupController):
    def __init__(self):
        super().__init__({'a': jnp.array([0.]), 'b': jnp.array([0.]), 'c': jnp.array([0.])}, jit_enable=False)
    def _generate_control(self, state, step_size, controller_state=None):
        return controller_state.get('c', jnp.array([7.])), {k: v + 1. for k, v in controller_state.items()}
c = Three()
c.generate_control(jnp.array([0.]), 1.)
c.save(); c.generate_control(jnp.array([0.]), 1.); c.restore()
expect(float(c.generate_control(jnp.array([0.]), 1.)[0]) == 1., c.controller_state)
''')
