"""Ready-made modules driven through their public interface; values recorded in 1/100000."""
from collections import OrderedDict
from types import SimpleNamespace

import jax.numpy as jnp
import numpy as np
from scipy.optimize import nnls

from toys import call
from run_time_assurance.constraint import ConstraintModule, ConstraintStrengthener
from run_time_assurance.rta import ImplicitASIFModule
from run_time_assurance.zoo.cwh import docking_2d as d2, docking_3d as d3, inspection_1v1 as i1, inspection_3d as i3
from run_time_assurance.zoo.integrators import integrator_1d as int1

U = 100000
CLS = {
    'int': {'es': int1.Integrator1dDockingExplicitSwitchingRTA, 'is': int1.Integrator1dDockingImplicitSwitchingRTA,
            'ea': int1.Integrator1dDockingExplicitOptimizationRTA, 'ia': int1.Integrator1dDockingImplicitOptimizationRTA},
    'dock2': {'es': d2.Docking2dExplicitSwitchingRTA, 'is': d2.Docking2dImplicitSwitchingRTA,
              'ea': d2.Docking2dExplicitOptimizationRTA, 'ia': d2.Docking2dImplicitOptimizationRTA},
    'dock3': {'es': d3.Docking3dExplicitSwitchingRTA, 'is': d3.Docking3dImplicitSwitchingRTA,
              'ea': d3.Docking3dExplicitOptimizationRTA, 'ia': d3.Docking3dImplicitOptimizationRTA},
    'insp1': {'ea': i1.Inspection1v1RTA}, 'inspd': {'da': i1.DiscreteInspection1v1RTA}, 'inspn': {'ea': i3.InspectionRTA},
}


def fx(v):
    v = float(v) * U
    return int(np.clip(round(v), -10**9, 10**9)) if np.isfinite(v) else 10**9 + 1


def fxs(a):
    return [fx(v) for v in np.asarray(a, dtype=float).ravel()]


def fl(a):
    return np.array(a, dtype=float) / U


def key(c):
    return c['fam'] + (str(c['P']['dim']) if c['fam'] == 'dock' else '')


def kwargs(c):
    """constructor arguments for the parameters named in c['kw']; the others keep their defaults"""
    P = c['P']
    ins = c['fam'].startswith('insp')
    val = {
        'm': lambda: P['m'] / U, 'n': lambda: P['n6'] / 1e6, 'v0': lambda: P['v0'] / U, 'v1_coef': lambda: P['v12'] / 2., 'v0_distance': lambda: P['dist'] / U,
        'x_vel_limit': lambda: P['vlim'][0] / U, 'y_vel_limit': lambda: P['vlim'][1] / U, 'z_vel_limit': lambda: P['vlim'][2] / U, 'vel_limit': lambda: P['vlim'][0] / U,
        'chief_radius': lambda: P['chief'] / U, 'deputy_radius': lambda: P['dep'] / U, 'r_max': lambda: P['rmax'] / U, 'fov': lambda: P['fov'] / U,
        'sun_vel': lambda: P['sun6'] / 1e6, 'num_deputies': lambda: P['ndep'], 'control_bounds_high': lambda: c['hi'] / U, 'control_bounds_low': lambda: c['lo'] / U,
        'backup_window': lambda: c['window'] / U, 'integration_method': lambda: 'Euler' if P['euler'] else 'RK45', 'use_hocbf': lambda: True,
    }
    assert ins or 'fov' not in c['kw']
    return {k: val[k]() for k in c['kw']}


def build(c):
    return CLS[key(c)][c['kind']](**kwargs(c))


# ---------------------------------------------------------------- documented functions, for the generic reference module
def nd(v):
    return jnp.sqrt(jnp.sum(v * v) + 1e-5)


class RefCon(ConstraintModule):
    def __init__(self, fn, **kw):
        self.fn = fn
        super().__init__(**kw)

    def _compute(self, state, params):
        return self.fn(state)


def documented(c):
    """name -> function of the state"""
    P = c['P']
    D = P['dim']
    if c['fam'] == 'int':
        return OrderedDict(rel_vel=(lambda x: -2 * x[0] - x[1]**2) if c['kind'] in ('es', 'ea') else (lambda x: -x[0]))
    v0, v1, dist = P['v0'] / U, P['v12'] / 2. * P['n6'] / 1e6, P['dist'] / U
    out = OrderedDict(rel_vel=lambda x: v0 + v1 * (nd(x[:D]) - dist) - nd(x[D:2 * D]))
    for i in range(D):
        out['xyz'[i] + '_vel'] = lambda x, i=i: (P['vlim'][i] / U)**2 - x[D + i]**2
    return out


def matrices(P):
    m, n = P['m'] / U, P['n6'] / 1e6
    D = P['dim']
    A = np.zeros((2 * D, 2 * D))
    A[:D, D:] = np.eye(D)
    if D == 2:
        A[2, 0], A[2, 3], A[3, 2] = 3 * n * n, 2 * n, -2 * n
    elif D == 3:
        A[3, 0], A[3, 4], A[4, 3], A[5, 2] = 3 * n * n, 2 * n, -2 * n, -n * n
    B = np.vstack((np.zeros((D, D)), np.eye(D) / m))
    return A, B


class Same(ConstraintStrengthener):
    def __init__(self, con):
        self.con = con

    def __call__(self, x):
        return self.con.alpha(x)


class RefIA(ImplicitASIFModule):
    def __init__(self, c, zoo, **kw):
        self.c, self.zoo = c, zoo
        A, B = matrices(c['P'])
        self.A, self.B = jnp.array(A), jnp.array(B)
        super().__init__(backup_window=c['window'] / U, backup_controller=type(zoo.backup_controller)(**({} if c['fam'] == 'int' else dict(m=c['P']['m'] / U, n=c['P']['n6'] / 1e6))),
                         control_dim=c['P']['dim'], control_bounds_high=c['hi'] / U, control_bounds_low=c['lo'] / U, integration_method='Euler' if c['P']['euler'] else 'RK45', **kw)

    def _setup_constraints(self):
        out = OrderedDict()
        for k, fn in documented(self.c).items():
            z = self.zoo.constraints[k]
            out[k] = RefCon(fn, alpha=Same(z), bias=z.bias, **dict(z.subsample_config))
        return out

    def state_transition_system(self, state):
        return self.A @ state

    def state_transition_input(self, state):
        return self.B


# ---------------------------------------------------------------- recording
def gain(c, ctl, dt=1.):
    """response of the backup controller to unit velocities (rows: thrust axes)"""
    D = c['P']['dim']
    if c['fam'] == 'int':
        return [[0]]
    cols = []
    for j in range(D):
        x = np.zeros(2 * D)
        x[D + j] = 1.
        cols.append(-np.array(ctl.generate_control(jnp.array(x), dt)).ravel())
    return [fxs(r) for r in np.array(cols).T]


def witness(c, x, d, u, alpha):
    """multipliers for the documented conditions (proposed here, checked by the specification)"""
    D = c['P']['dim']
    A, B = matrices(c['P'])
    rows = []
    xs = jnp.array(x)
    import jax
    for (k, fn), al in zip(documented(c).items(), alpha):
        g = np.array(jax.grad(fn)(xs), dtype=float)
        rows.append((g @ B, float(g @ (A @ x) + al)))
    rows += [(-np.eye(D)[i], c['hi'] / U) for i in range(D)] + [(np.eye(D)[i], -c['lo'] / U) for i in range(D)]
    act = [j for j, (a, r) in enumerate(rows) if a @ u + r < 1e-3]
    lam = np.zeros(len(rows))
    if act and np.abs(u - d).max() > 1e-6:
        sol, _ = nnls(np.array([rows[j][0] for j in act]).T, u - d)
        lam[act] = sol
    return lam


def base(name):
    parts = name.rsplit('_', 1)
    return (parts[0], int(parts[1])) if len(parts) == 2 and parts[1].isdigit() else (name, 0)


def run(job):
    c, ops = job
    if c.get('psm'):        # the passive safety constraints on their own: no module needed
        status, rta = 'ok', SimpleNamespace(constraints={})
    else:
        status, rta = call(lambda: build(c))
    evs = [{'op': 'construct', 'status': status, 'names': [] if rta is None else list(rta.constraints.keys())}]
    if rta is None:
        return evs
    fam = c['fam']
    K = gain(c, rta.backup_controller) if hasattr(rta, 'backup_controller') else [[0]]
    ref = None
    for op in ops:
        o = op['op']
        x = fl(op.get('x', [0]))
        xj = jnp.array(x)
        if o == 'h':
            for name, con in rta.constraints.items():
                b, k = base(name)
                if op.get('only') and b not in op['only']:
                    continue

                def act():
                    phi = con.phi(xj, con.params)
                    return dict(val=fx(con(xj, con.params)), phi=fx(phi), alpha=fx(con.alpha(phi)) if 'hocbf' in name else 0)
                status, rec = call(act)
                evs.append(dict(op='h', name=name, base=b, k=k, x=op['x'], status=status, **(rec or {})))
        elif o == 'psm':
            def act():
                P = c['P']
                cls = i1.ConstraintPassivelySafeManeuver if op['k'] == 0 else i3.ConstraintPSMDeputy
                con = cls(collision_radius=(P['chief'] + P['dep']) / U, m=P['m'] / U, n=P['n6'] / 1e6, dt=op['dt'] / U, steps=op['steps'], **({} if op['k'] == 0 else {'deputy': op['k']}))
                return dict(val=fx(con(xj, con.params)), phi=fx(con.phi(xj, con.params)))
            status, rec = call(act)
            b = 'psm' if op['k'] == 0 else 'deputy_psm'
            evs.append(dict(op='h', name=b if op['k'] == 0 else f'{b}_{op["k"]}', base=b, k=op['k'], x=op['x'], dt=op['dt'], steps=op['steps'], status=status, **(rec or {})))
        elif o == 'alpha':
            status, v = call(lambda: fx(rta.constraints[op['name']].alpha(op['v'] / U)))
            evs.append(dict(op, status=status, val=0 if v is None else v))
        elif o == 'f':
            status, v = call(lambda: fxs(rta.state_transition_system(xj)))
            evs.append(dict(op, status=status, val=v or []))
        elif o == 'g':
            status, v = call(lambda: fxs(rta.state_transition_input(xj)))
            evs.append(dict(op, status=status, val=v or []))
        elif o in ('pred', 'coast'):
            status, v = call(lambda: fxs(rta._pred_state(xj, op['dt'] / U, jnp.array(fl(op['u'])))))
            evs.append(dict(op, status=status, val=v or []))
        elif o == 'next':
            status, v = call(lambda: fxs(rta.next_state_differentiable(xj, op['dt'] / U, jnp.array(fl(op['u'])))))
            evs.append(dict(op, status=status, val=v or []))
        elif o == 'backup':
            status, v = call(lambda: fxs(rta.backup_controller.generate_control(xj, 1.)))
            evs.append(dict(op, status=status, val=v or [], K=K))
        elif o == 'switch':
            status, v = call(lambda: rta.filter_control(x, op['dt'] / U, fl(op['d'])))
            evs.append(dict(op, status=status, u=[] if v is None else fxs(v), iv=bool(rta.intervening), K=K))
        elif o == 'asif':
            d = fl(op['d'])
            status, v = call(lambda: rta.filter_control(x, 1., d))
            rec = {}
            if v is not None:
                alpha = [float(con.alpha(con(xj, con.params))) for con in rta.constraints.values()]
                lam = witness(c, x, d, np.array(v, dtype=float), alpha)
                rec = dict(u=fxs(v), iv=bool(rta.intervening), alpha=[fx(a) for a in alpha], lam=[fx(min(a, 2000.)) for a in lam], big=int(min(2000, lam.max() * 4)))
            evs.append(dict(op, status=status, **rec))
        elif o == 'same':
            if ref is None:
                ref = RefIA(c, rta)
            d = fl(op['d'])
            status, v = call(lambda: rta.filter_control(x, op['dt'] / U, d))
            i = bool(rta.intervening)
            s2, w = call(lambda: ref.filter_control(x, op['dt'] / U, d))
            evs.append(dict(op, status='ok' if status == s2 else f'{status} where the generic module gives {s2}', a=[] if v is None else fxs(v), b=[] if w is None else fxs(w), ia=i, ib=bool(ref.intervening), tol=300,
                            what='differs from the generic module with the documented dynamics and constraints'))
    for e in evs:       # controls that no actuator could take are not worth fixed-point arithmetic
        for k in ('u', 'val') if e['op'] in ('switch', 'asif', 'backup') else ():
            if e.get(k) and e['op'] != 'h' and max(abs(v) for v in e[k]) > 500 * U:
                e['status'] = 'error:range'
        if 'K' in e and max(abs(v) for r in e['K'] for v in r) > 500 * U:
            e['status'] = 'error:gain'
    return evs


def run_loop(c):
    """closed loops: the plant is the integrator itself"""
    out = []
    rta = CLS[key(c)][c['kind']](latch_time=c['latch'] / U, **kwargs(c))
    dt = c['dt'] / U
    for x0, ds in c['runs']:
        rta.reset()
        x, evs = fl(x0), []
        for d in ds:
            y = x.copy()
            status, u = call(lambda: rta.filter_control(y, dt, np.array([d / U])))
            a = float(np.asarray(u).ravel()[0]) if u is not None else 0.
            nx = np.array([x[0] + dt * x[1] + dt * dt / 2 * a, x[1] + dt * a])
            evs.append(dict(op='loop', status=status, x=fxs(x), dt=c['dt'], d=[d], u=[fx(a)], to=fxs(nx)))
            x = nx
        out.append(evs)
    return out
