"""The delta-v limit module with chosen backup gains.

The Riccati equation its constructor poses has no solution (recorded as a finding), so the solver call is replaced
during construction by a stand-in that returns a matrix giving the gains of the configuration."""
import numpy as np
import scipy.linalg

from toys import call, do_info
from run_time_assurance.zoo.cwh import inspection_1v1 as mod

S = 4096


def with_gains(c, cls):
    """a constructor for cls in which the Riccati solution gives the configured gains"""
    m = c['m']
    P = np.zeros((12, 12))
    K = np.hstack((np.array(c['K1'], dtype=float), np.array(c['K2'], dtype=float))) / 2.
    P[3:6, :] = m * 1e5 * K

    def make(**kw):
        old = scipy.linalg.solve_continuous_are
        names = [k for k, v in vars(mod).items() if v is old]
        try:
            scipy.linalg.solve_continuous_are = lambda *a, **k: P
            for k in names:
                setattr(mod, k, scipy.linalg.solve_continuous_are)
            return cls(**kw)
        finally:
            scipy.linalg.solve_continuous_are = old
            for k in names:
                setattr(mod, k, old)
    return make


def build(c, **over):
    return with_gains(c, mod.SwitchingDeltaVLimitRTA)(m=c['m'], n=c['n'], delta_v_limit=c['lim2'] / (2. * S), n_steps=c['steps'], **over)


def run(job):
    c, ops = job
    status, rta = call(lambda: build(c))
    evs = [{'op': 'construct', 'status': status}]
    if rta is None:
        return evs
    for op in ops:
        if op['op'] == 'filter':
            x, d = np.array(op['x'], dtype=float) / S, np.array(op['d'], dtype=float) / S
            x0, d0 = x.copy(), d.copy()
            status, out = call(lambda: rta.filter_control(x, c['dt2'] / 2., d))
            evs.append(dict(op, status=status, u=[int(round(float(np.clip(v, -999, 999)) * S)) for v in (out if out is not None else [])], iv=bool(rta.intervening), pure=bool(np.array_equal(x, x0) and np.array_equal(d, d0))))
            d[:] = 55.
            if out is not None:
                out[:] = -55.
        elif op['op'] == 'info':
            i = do_info(rta)
            evs.append({'op': 'info', 'status': i['status'], 'en': i['en'], 'iv': i['iv']})
        else:
            def act():
                if op['op'] == 'reset':
                    rta.reset()
                else:
                    rta.enable = op['v']
            status, _ = call(act)
            evs.append(dict(op, status=status))
    return evs


def default_construction(_):
    """status of constructing the module as shipped; 'riccati' when it is the Riccati solver that gives up"""
    old = scipy.linalg.solve_continuous_are
    names = [k for k, v in vars(mod).items() if v is old]
    gave_up = []

    def solver(*a, **k):
        try:
            return old(*a, **k)
        except Exception:
            gave_up.append(1)
            raise

    try:
        scipy.linalg.solve_continuous_are = solver
        for k in names:
            setattr(mod, k, solver)
        status, _ = call(mod.SwitchingDeltaVLimitRTA)
    finally:
        scipy.linalg.solve_continuous_are = old
        for k in names:
            setattr(mod, k, old)
    return 'riccati' if gave_up else status
