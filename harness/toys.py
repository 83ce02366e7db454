"""Real run_time_assurance modules for the specification's integer-exact plants.

Everything here is built through the library's public extension points (abstract methods a user of the
library implements, constructor arguments, public attributes).  Nothing is judged here: the functions only
build modules, perform calls and record what a caller can observe.
"""
import signal
import warnings
from collections import OrderedDict

import jax.numpy as jnp
import numpy as np

from run_time_assurance.constraint import (
    ConstraintMagnitudeStateLimit, ConstraintMaxStateLimit, ConstraintMinStateLimit, ConstraintModule,
    DirectInequalityConstraint, HOCBFConstraint, PolynomialConstraintStrengthener
)
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta import DiscreteASIFIntegratorModule, DiscreteASIFModule, ExplicitASIFModule, ExplicitSimplexModule, ImplicitASIFModule, ImplicitSimplexModule
from run_time_assurance.utils import SolverError

S = 10000
CLAMP = 1900 * S


# ---------------------------------------------------------------- recording helpers
def hexs(a):
    """exact text of a vector (None -> 'none')"""
    if a is None:
        return 'none'
    return ' '.join(float(v).hex() for v in np.asarray(a, dtype=np.float64).ravel())


def floors(a):
    out = []
    for v in np.asarray(a, dtype=np.float64).ravel():
        v = v * S
        out.append(int(max(-CLAMP, min(CLAMP, np.floor(v)))) if np.isfinite(v) else CLAMP)
    return out


def ceils(a):
    out = []
    for v in np.asarray(a, dtype=np.float64).ravel():
        v = v * S
        out.append(int(max(-CLAMP, min(CLAMP, np.ceil(v)))) if np.isfinite(v) else -CLAMP)
    return out


def scaled(v):
    v = float(v) * S
    return int(max(-CLAMP, min(CLAMP, round(v)))) if np.isfinite(v) else CLAMP


def rounded(a):
    return [] if a is None else [scaled(v) for v in np.asarray(a, dtype=np.float64).ravel()]


LIMIT = 120.  # seconds: no single call here takes more than a few


def _alarm(_sig, _frame):
    raise TimeoutError('the call does not return')


def call(fn):
    """run fn, returning (status, value); warnings are reported as status 'warn', a call that never returns as
    'error:TimeoutError'"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, LIMIT)
        try:
            val = fn()
        except SolverError:
            return 'solver_error', None
        except Exception as e:  # pylint: disable=broad-except
            return 'error:' + type(e).__name__, None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    # compilation chatter of the platform is not a solver warning
    solver = [w for w in rec if issubclass(w.category, UserWarning) and 'olver' in str(w.message)]
    return ('warn' if solver else 'ok'), val


def unit(cfg):
    """the configuration's numbers are multiples of this unit (a power of two: nothing is rounded)"""
    return 2. ** cfg.get('sc', 0)


def tunit(cfg):
    """the configuration's times are multiples of this unit, its rates of the inverse (a power of two)"""
    return 2. ** cfg.get('ts', 0)


# ---------------------------------------------------------------- plant
class Plant:
    def __init__(self, cfg):
        self.u = unit(cfg)
        r = 1. if cfg['mode'] == 'dt' else 1. / tunit(cfg)
        self.A = jnp.array(cfg['A'], dtype=float) * r
        self.c = jnp.array(cfg['c'], dtype=float) * self.u * r
        self.B = jnp.array(cfg['B'], dtype=float) * r
        self.Bx = [jnp.array(m, dtype=float) * r for m in cfg['Bx']]
        self.Q = [jnp.array(m, dtype=float) / self.u * r for m in cfg['Q']]
        self.mode = cfg['mode']

    def f(self, x):
        out = self.A @ x + self.c
        if self.Q:
            out = out + jnp.array([x @ q @ x for q in self.Q])
        return out

    def g(self, x):
        out = self.B
        for i, m in enumerate(self.Bx):
            out = out + x[i] / self.u * m
        return out

    def step(self, x, step_size, u):
        k = 1. if self.mode == 'dt' else step_size
        v = self.f(x) + self.g(x) @ u
        if self.mode == 'ode':
            return x + k * v + k * k / 2. * (self.A @ v)
        return x + k * v


# ---------------------------------------------------------------- constraints
class LinearConstraint(ConstraintModule):
    def __init__(self, w, lim, **kwargs):
        self.w = jnp.array(w, dtype=float)
        super().__init__(params={'limit_val': lim}, **kwargs)

    def _compute(self, state, params):
        return self.w @ state + params['limit_val']


class ScaledConstraint(ConstraintModule):
    """the parameter is a factor: it reaches the gradient"""
    def __init__(self, w, off, lim, **kwargs):
        self.w = jnp.array(w, dtype=float)
        self.off = off
        super().__init__(params={'limit_val': lim}, **kwargs)

    def _compute(self, state, params):
        return params['limit_val'] * (self.w @ state) + self.off


SLACK = {1: 1e6, 2: 1e12}
SLACK_DISCRETE = {1: 1e3, 2: 1e6}      # the iterative solver stops early on badly scaled problems


def make_constraint(c, u=1., slack=SLACK, drift=None, r=1.):
    kw = {
        'alpha': PolynomialConstraintStrengthener([float(v) * r for v in c['a']]),
        'bias': float(c['bias']) * (u * u if c['t'] == 'mag' else u),
        'enabled': bool(c['en']),
    }
    if c['an']:
        kw['alpha_negative'] = PolynomialConstraintStrengthener([float(v) * r for v in c['an']])
    kw['bias_negative'] = c['bn100'] / 100. * r * (u * u if c['t'] == 'mag' else u)
    if c['slack']:
        kw['slack_priority_scale'] = slack[c['slack']]
    s = c['sub']
    if s['set']:
        kw.update(
            num_check_all=s['nca'], skip_length=s['skip'], subsample_constraints_num_least=s['least'] or None,
            keep_first=s['kf'], keep_last=s['kl']
        )
    cls = {'max': ConstraintMaxStateLimit, 'min': ConstraintMinStateLimit, 'mag': ConstraintMagnitudeStateLimit}
    if c['t'] == 'lin':
        return LinearConstraint(c['w'], float(c['lim']) * u, **kw)
    if c['t'] == 'scl':
        return ScaledConstraint(c['w'], float(c['i']) * u, float(c['lim']), **kw)
    if c['t'] == 'ho':
        return HOCBFConstraint(ConstraintMaxStateLimit(limit_val=float(c['lim']) * u, state_index=c['i'] - 1), relative_degree=2, state_transition_system=drift, **kw)
    return cls[c['t']](limit_val=float(c['lim']) * u, state_index=c['i'] - 1, **kw)


class Direct(DirectInequalityConstraint):
    """weight and constant may depend on the state and on the parameter"""
    def __init__(self, d, u=1.):
        self.u = u
        self.w = jnp.array(d['w'], dtype=float)
        self.wx = jnp.array(d['wx'], dtype=float) if d['wx'] else None
        self.bx = jnp.array(d['bx'], dtype=float) if d['bx'] else None
        self.wp = jnp.array(d['wp'], dtype=float) if d['wp'] else None
        super().__init__(params={'b': float(d['b']) * u}, enabled=bool(d['en']))

    def ineq_weight(self, state, params):
        w = self.w
        if self.wp is not None:
            w = w + params['b'] / self.u * self.wp
        if self.wx is not None:
            w = w + state @ self.wx / self.u
        return w

    def ineq_constant(self, state, params):
        b = jnp.asarray(params['b'], dtype=float) + 0. * state[0]
        return b if self.bx is None else b + self.bx @ state


# ---------------------------------------------------------------- backup controllers
class LinController(RTABackupController):
    def __init__(self, bk, u=1.):
        self.K = jnp.array(bk['K'], dtype=float)
        self.c = jnp.array(bk['c'], dtype=float) * u
        super().__init__()

    def _generate_control(self, state, step_size, controller_state=None):
        return self.K @ state + self.c, None


class MemController(RTABackupController):
    """memory is one number, kept as an array or inside a dictionary"""
    def __init__(self, bk, u=1.):
        self.bk = bk
        self.u = u
        self.K = jnp.array(bk['K'], dtype=float)
        self.c = jnp.array(bk['c'], dtype=float) * u
        self.seq = jnp.array(bk['seq'], dtype=float) * u
        init = jnp.array([float(bk['cs0'])])
        first = {'arr': init, 'grow': {}, 'many': {'a': jnp.zeros((2, 2)), 'b': jnp.array(3), 'n': init, 'z': init + 1., 'zz': jnp.zeros(0)}}.get(bk['mem'], {'n': init, 'aux': jnp.zeros(2)})
        super().__init__(first, jit_enable=False)

    def _generate_control(self, state, step_size, controller_state=None):
        if isinstance(controller_state, dict):
            cs = controller_state['n'][0] if 'n' in controller_state else jnp.array(float(self.bk['cs0']))
        else:
            cs = controller_state[0]
        if self.bk['t'] == 'pat':
            u = self.seq[jnp.minimum(cs, len(self.bk['seq']) - 1).astype(int)]
            new = (cs + 1) % self.bk['mod']
        elif self.bk['t'] == 'gain':
            u = cs * (self.K @ state) + self.c
            new = (cs + 1) % self.bk['mod']
        else:
            u = cs * self.c + self.K @ state
            new = (cs + 1 + jnp.abs(state[0]) / self.u) % self.bk['mod']
        new = jnp.array([new])
        if self.bk['mem'] == 'inplace':
            controller_state['n'] = new
            return u, controller_state
        if self.bk['mem'] == 'grow':      # entries appear as they are first needed
            return u, dict(controller_state, n=new)
        if self.bk['mem'] == 'many':      # several entries, all of them needed
            st = controller_state
            return u + (st['z'][0] - cs - 1.) * 64. + jnp.sum(st['a']) * 0. + (st['b'] - 3) * 64., {'zz': st['zz'], 'z': new + 1., 'n': new, 'a': st['a'] + 1., 'b': st['b']}
        if isinstance(controller_state, dict):
            return u, {'n': new, 'aux': controller_state['aux'] + 1.}
        return u, new


def make_controller(bk, u=1.):
    return LinController(bk, u) if bk['t'] == 'lin' else MemController(bk, u)


# ---------------------------------------------------------------- modules
class _Toy:
    cfg = None

    def _setup_constraints(self):
        return OrderedDict((c['name'], make_constraint(c, unit(self.cfg), SLACK_DISCRETE if self.cfg['kind'] == 'da' else SLACK, self.plant.f, 1. / tunit(self.cfg))) for c in self.cfg['defined'])

    def _setup_direct_constraints(self):
        return OrderedDict((d['name'], Direct(d, unit(self.cfg))) for d in self.cfg['direct'])

    def state_transition_system(self, state):
        return self.plant.f(state)

    def state_transition_input(self, state):
        return self.plant.g(state)


class ToyES(_Toy, ExplicitSimplexModule):
    def _pred_state(self, state, step_size, control):
        return self.plant.step(state, step_size, control)


class ToyIS(_Toy, ImplicitSimplexModule):
    def _pred_state(self, state, step_size, control):
        return self.plant.step(state, step_size, control)


class ToyEA(_Toy, ExplicitASIFModule):
    pass


class ToyIA(_Toy, ImplicitASIFModule):
    pass


class ToyIAJ(ToyIA):
    """a user who asks for a compiled integrator supplies one that can be compiled (the default one cannot)"""
    def _pred_state(self, state, step_size, control):
        return self.plant.step(state, step_size, control)


class ToyDA(_Toy, DiscreteASIFModule):
    def next_state_differentiable(self, state, step_size, control):
        return self.plant.step(state, step_size, control)


class ToyDAI(_Toy, DiscreteASIFIntegratorModule):
    """the library integrates the derivative"""
    def compute_state_dot(self, t, state, control):
        return self.plant.f(state) + self.plant.g(state) @ control


BASES = {'es': ToyES, 'is': ToyIS, 'ea': ToyEA, 'ia': ToyIA, 'da': ToyDA}


def bounds_arg(cfg, key):
    v = cfg[key]
    if not v:
        return None
    form = cfg['bform']
    if cfg.get('sc'):
        v = [x * unit(cfg) for x in v]
        form = 'scalar' if form == 'int' else form
    if form == 'scalar' and len(set(v)) == 1:
        return float(v[0])
    if form == 'int' and len(set(v)) == 1:
        return int(v[0])
    if form == 'array':
        return np.array(v, dtype=float)
    if form == 'jnp':
        return jnp.array(v, dtype=float)
    return [float(x) for x in v]


def base_of(cfg):
    if cfg['kind'] == 'ia' and any(cfg['jitd'].get(k) for k in ('pred_state', 'integrate')):
        return ToyIAJ
    if cfg['kind'] == 'da' and cfg['mode'] == 'ode':
        return ToyDAI
    return BASES[cfg['kind']]


def shared_class(base):
    """a user's class whose instances differ in what they are constructed with"""
    class Shared(base):
        def __init__(self, cfg, **kw):
            self.cfg, self.plant, self.verif_unit, self.verif_tunit = cfg, Plant(cfg), unit(cfg), tunit(cfg)
            super().__init__(**kw)
    return Shared


def build(cfg, cls=None, **over):
    """construct the real module for cfg; keyword overrides go to the constructor"""
    if cls is None:
        cls = type('Toy_' + cfg['name'], (base_of(cfg), ), {'cfg': cfg, 'plant': Plant(cfg), 'verif_unit': unit(cfg), 'verif_tunit': tunit(cfg)})
        kw = {}
    else:
        kw = {'cfg': cfg}
    if cfg['low']:
        kw['control_bounds_low'] = bounds_arg(cfg, 'low')
    if cfg['high']:
        kw['control_bounds_high'] = bounds_arg(cfg, 'high')
    kw['jit_enable'] = cfg['jit']
    if cfg['jitd']:
        kw['jit_compile_dict'] = dict(cfg['jitd'])
    k = cfg['kind']
    if k in ('es', 'is'):
        kw['latch_time'] = cfg['latch'] / 1000. * tunit(cfg)
    if k in ('es', 'is', 'ia'):
        kw['backup_controller'] = make_controller(cfg['bk'], unit(cfg))
    if k in ('is', 'ia'):
        kw['backup_window'] = cfg['win'] / 1000. * tunit(cfg)
    if k == 'ia' and cfg['mode'] != 'ode':      # exact flow: the default method
        kw['integration_method'] = 'Euler'
    if k in ('ea', 'ia', 'da'):
        kw['control_dim'] = len(cfg['B'][0])
        kw['epsilon'] = cfg['eps'] / S * unit(cfg)
        kw['solver_exception'] = cfg['exc']
    if cfg['sel']:
        kw['constraints_to_use'] = list(cfg['use'])
    kw.update(over)
    return cls(**kw)


# ---------------------------------------------------------------- performing calls
def state_arg(x, form, u=1.):
    a = np.array(x, dtype=float if form != 'f32' else np.float32) * (u if form != 'f32' else np.float32(u))
    return jnp.array(a) if form == 'jnp' else a


def control_arg(d, form, u=1.):
    a = np.array(d, dtype=float) * u
    if form == 2:
        return a.astype(np.float32)
    if form == 4 and u == 1.:
        return np.array(d)
    if form == 6:
        return jnp.array(a)
    return a


def causes_of(rta):
    cz = getattr(rta, 'constraints_causing_intervention', None)
    return [str(v) for v in cz] if cz is not None else ['?']


def do_filter(rta, op, n):
    """one filtering call; n picks the representation of the arguments"""
    un = getattr(rta, 'verif_unit', 1.)
    x = state_arg(op['x'], ('np', 'jnp', 'np', 'f32')[n % 4], un)
    d = control_arg(op['d'], n % 9, un)
    x0, d0 = np.array(x), np.array(d)
    status, out = call(lambda: rta.filter_control(x, op['dtm'] / 1000. * getattr(rta, 'verif_tunit', 1.), d))
    pure = bool(np.array_equal(np.array(x), x0) and np.array_equal(np.array(d), d0))
    ev = dict(op)
    ev.update(status=status, pure=pure, dx=hexs(d0), iv=bool(rta.intervening))
    if out is not None:
        o = np.asarray(out, dtype=np.float64) / un
        ev.update(fl=floors(o), ce=ceils(o), outx=hexs(out))
        if len(ev['fl']) != len(op['d']):
            ev['status'] = 'error:shape'
        # a caller may reuse its buffers
        if isinstance(d, np.ndarray):
            d[:] = 777.
        if isinstance(out, np.ndarray):
            out[:] = -777.
    else:
        ev.update(fl=[], ce=[], outx='none')
    ev['causes'] = causes_of(rta)
    return ev


def set_param(con, key, v, n):
    """in place, by a new dictionary, or by a dictionary the user keeps for this value and switches back to"""
    kept = con.__dict__.setdefault('verif_kept', {con.params[key]: con.params})
    if n % 3 == 1:
        for k in [k for k, d in kept.items() if d is con.params]:
            del kept[k]
        con.params[key] = v
    elif n % 3 == 2:
        con.params = kept.setdefault(v, {key: v})
    else:
        con.params = {key: v}


def do_other(rta, op, n):
    ev = dict(op)
    kind = op['op']
    un = getattr(rta, 'verif_unit', 1.)

    def act():
        if kind == 'reset':
            rta.reset()
        elif kind == 'enable':
            rta.enable = op['v']
        elif kind == 'lim':
            c = list(rta.constraints.values())[op['i'] - 1]
            set_param(c, 'limit_val', float(op['v']) * (1. if isinstance(c, ScaledConstraint) else un), n)
        elif kind == 'con':
            list(rta.constraints.values())[op['i'] - 1].enabled = op['v']
        elif kind == 'dlim':
            set_param(list(rta.direct_inequality_constraints.values())[op['i'] - 1], 'b', float(op['v']) * un, n)
        elif kind == 'dcon':
            list(rta.direct_inequality_constraints.values())[op['i'] - 1].enabled = op['v']
        elif kind == 'update':
            rta.update_constraint_values(state_arg(op['x'], ('np', 'jnp')[n % 2], un))
        return None

    status, _ = call(act)
    ev['status'] = status
    if kind == 'reset':
        ev['causes'] = causes_of(rta)
    return ev


def do_info(rta):
    status, info = call(rta.generate_info)
    if info is None:
        return {'op': 'info', 'status': status, 'en': False, 'iv': False, 'des': status, 'act': status, 'key': status, 'vals': []}
    key = [k for k in ('constraints', 'constraints_at_last_state') if k in info]
    vals = info[key[0]] if len(key) == 1 else {}
    un = getattr(rta, 'verif_unit', 1.)
    if un != 1.:
        sq = {c['name'] for c in rta.cfg['defined'] if c['t'] == 'mag'}
        vals = {k: float(v) / (un * un if k in sq else un) for k, v in vals.items()}
    return {
        'op': 'info', 'status': status, 'en': bool(info['enable']), 'iv': bool(info['intervening']),
        'des': hexs(info['control_desired']), 'act': hexs(info['control_actual']),
        'key': '+'.join(key), 'vals': [{'k': k, 'v': scaled(v)} for k, v in vals.items()]
    }


def run_ops(rta, ops, seed=0):
    """perform a list of calls on a module and return the recorded events"""
    evs = []
    for n, op in enumerate(ops):
        if op['op'] == 'filter':
            evs.append(do_filter(rta, op, n + seed))
        elif op['op'] == 'info':
            evs.append(do_info(rta))
        else:
            evs.append(do_other(rta, op, n + seed))
    return evs


def run_walk(job):
    """pool worker: (cfg, ops, seed) -> trace"""
    cfg, ops, seed = job
    status, rta = call(lambda: build(cfg))
    ev = [{'op': 'construct', 'status': status, 'causes': causes_of(rta)}]
    if rta is None:
        return ev
    return ev + run_ops(rta, ops, seed)


def run_pair(job):
    """pool worker: several instances of one class, constructed with their own settings and driven alternately; one trace
    per instance"""
    cfgs, walks, seed = job
    cls = shared_class(base_of(cfgs[0]))
    insts = [build(c, cls) for c in cfgs]
    out = [[{'op': 'construct', 'status': 'ok', 'causes': causes_of(r)}] for r in insts]
    pos = [0] * len(walks)
    rng = __import__('random').Random(seed)
    while any(p < len(w) for p, w in zip(pos, walks)):
        i = rng.choice([k for k in range(len(walks)) if pos[k] < len(walks[k])])
        for _ in range(rng.randint(1, 3)):
            if pos[i] < len(walks[i]):
                out[i] += run_ops(insts[i], [walks[i][pos[i]]], seed + pos[i])
                pos[i] += 1
    return out


def ctl_ops(c):
    ops = []
    for x in c['xs']:
        ops += [('gen', x), ('jac', x), ('peek', x)]
    return ops + [('save', None), ('restore', None), ('reset', None)]


def run_controller(job):
    """a backup controller driven directly"""
    c, walk = job
    ctl = make_controller(c['bk'])
    ops = ctl_ops(c)
    evs = []
    mem = c['bk']['mem']
    for k in walk:
        op, x = ops[k]

        def act():
            if op == 'gen':
                return ctl.generate_control(jnp.array(x, dtype=float), 1.)
            if op == 'jac':
                if mem == 'inplace':      # jax cannot differentiate through in-place updates of a kept dictionary
                    return np.sum(np.array(c['bk']['K'], dtype=float), axis=1)
                return np.sum(np.array(ctl.jacobian(jnp.array(x, dtype=float), 1.)), axis=1)
            if op == 'peek':
                st = {'none': None, 'arr': jnp.array([1.]), 'many': {'a': jnp.ones((2, 2)), 'b': jnp.array(3), 'n': jnp.array([1.]), 'z': jnp.array([2.]), 'zz': jnp.zeros(0)}}.get(mem, {'n': jnp.array([1.]), 'aux': jnp.zeros(2)})
                u, new = ctl.generate_control_with_controller_state(jnp.array(x, dtype=float), 1., st)
                new = [0.] if new is None else (new['n'] if isinstance(new, dict) else new)
                return list(np.array(u)) + list(np.array(new))
            getattr(ctl, op)()
            return []

        status, u = call(act)
        evs.append({'op': op, 'k': k + 1, 'status': status, 'u': [scaled(v) for v in (u if u is not None else [])]})
    return evs


# ---------------------------------------------------------------- cascades
def build_cascade(cfg):
    from run_time_assurance.rta import CascadedRTA

    def setup(self):
        return [build_cascade(c) if 'stages' in c else build(c) for c in cfg['stages']]

    cls = type('Cascade_' + cfg['name'], (CascadedRTA, ), {'_setup_rta_list': setup})
    kw = {}
    if cfg['low']:
        kw['control_bounds_low'] = bounds_arg(cfg, 'low')
    if cfg['high']:
        kw['control_bounds_high'] = bounds_arg(cfg, 'high')
    return cls(**kw)


def run_cascade(job):
    cfg, ops, seed = job
    status, rta = call(lambda: build_cascade(cfg))
    evs = [{'op': 'construct', 'status': status}]
    if rta is None:
        return evs
    for n, op in enumerate(ops):
        if op['op'] == 'stage':
            target, sub = rta, op
            while sub['op'] == 'stage':
                target, sub = target.rta_list[sub['k'] - 1], sub['sub']
            r = do_other(target, sub, n + seed)
            evs.append(dict(op, status=r['status']))
        else:
            evs += run_ops(rta, [op], n + seed)
            if op['op'] == 'filter' and evs[-1]['status'] in ('ok', 'warn'):
                infos = [s.generate_info() for s in rta.rta_list]
                evs[-1].update(sdes=[rounded(i['control_desired']) for i in infos], sact=[rounded(i['control_actual']) for i in infos])
    return evs


# ---------------------------------------------------------------- closed loop
def run_loop(job):
    """drive a switching module in closed loop: the plant moves under what the module returned"""
    cfg, ops, seed = job
    rta = build(cfg)
    un = unit(cfg)
    x = np.array(cfg['starts'][0], dtype=float) * un
    A, c, B = (np.array(cfg[k], dtype=float) for k in ('A', 'c', 'B'))
    c = c * un
    k = (cfg['h'] if cfg['mode'] == 'ct' else 1)
    evs = []
    for n, op in enumerate(ops):
        status = 'ok'
        if op['op'] == 'start':
            rta.reset()
            x = np.array(op['x'], dtype=float) * un
        else:
            status, u = call(lambda: rta.filter_control(state_arg(x, ('np', 'jnp')[(n + seed) % 2]), cfg['dtm'] / 1000. * tunit(cfg), np.array(op['d'], dtype=float) * un))
            if u is not None:
                x = x + k * (A @ x + c + B @ np.asarray(u, dtype=float))
        evs.append(dict(op, status=status, xs=[int(np.clip(round(v / un * 1000), -10**6, 10**6)) for v in x]))
    return evs
