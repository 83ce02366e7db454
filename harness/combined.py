"""The combined inspection module with a recording stand-in deputy, and with its real deputies."""
import numpy as np

from toys import call, do_info, state_arg
from run_time_assurance.rta import RTAModule
from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA, InspectionRTA


class Stub(RTAModule):
    def __init__(self, c):
        self.W, self.V, self.thr = np.array(c['W'], dtype=float), np.array(c['V'], dtype=float), c['thr']
        super().__init__(control_bounds_low=arg(c['dlow'], c['form']), control_bounds_high=arg(c['dhigh'], c['form']))

    def compute_filtered_control(self, input_state, step_size, control_desired):
        x = np.array(input_state, dtype=float)
        self.intervening = bool(self.V @ x >= self.thr)
        return np.array(control_desired) + self.W @ x


def arg(v, form):
    if not v:
        return None
    if len(v) == 1:
        return float(v[0]) if form != 'int' else int(v[0])
    return np.array(v, dtype=float) if form == 'array' else [float(a) for a in v]


def fc(a, s=100):
    a = np.asarray(a, dtype=float).ravel()
    a = np.where(np.isfinite(a), a, 1e6)
    a = np.clip(a, -1e6, 1e6)
    return [int(v) for v in np.floor(a * s)], [int(v) for v in np.ceil(a * s)]


def run(job):
    c, ops, seed = job
    status, rta = call(lambda: CombinedInspectionRTA(num_deputies=c['n'], deputy_rta=Stub(c), control_bounds_low=arg(c['low'], c['form']), control_bounds_high=arg(c['high'], c['form'])))
    evs = [{'op': 'construct', 'status': status}]
    if rta is None:
        return evs
    for n, op in enumerate(ops):
        if op['op'] == 'filter':
            x = state_arg(op['x'], ('np', 'np', 'jnp')[(n + seed) % 3])
            d = np.array(op['d'], dtype=float)
            x0, d0 = np.array(x), d.copy()
            status, out = call(lambda: rta.filter_control(x, 1., d))
            fl, ce = fc(out) if out is not None else ([], [])
            evs.append(dict(op, status=status, fl=fl, ce=ce, iv=bool(rta.intervening), pure=bool(np.array_equal(np.array(x), x0) and np.array_equal(d, d0))))
        elif op['op'] == 'info':
            i = do_info(rta)
            evs.append({'op': 'info', 'status': i['status'], 'en': i['en'], 'iv': i['iv']})
        else:
            def act():
                if op['op'] == 'reset':
                    rta.reset()
                elif op['op'] == 'enable':
                    rta.enable = op['v']
                else:
                    rta.deputy_rta.enable = op['v']
            status, _ = call(act)
            evs.append(dict(op, status=status))
    return evs


def run_exact(job):
    """deputies that are switched off hand every agent's own control through, to the last bit"""
    n, given, points = job
    comb = CombinedInspectionRTA(num_deputies=n, deputy_rta=Stub(given) if given else None)
    comb.deputy_rta.enable = False
    evs = []
    for x, d in points:
        d = np.array(d)
        text = [float(v).hex() for v in d]
        status, out = call(lambda: comb.filter_control(np.array(x), 1., d))
        evs.append(dict(op='exact', status=status, d=text, u=[float(v).hex() for v in (np.asarray(out).ravel() if out is not None else [])]))
    return evs


def view_idx(n, i):
    """1-based; checked against the specification's ViewIdx"""
    own = list(range(6 * i + 1, 6 * i + 7))
    return own + [k for k in range(1, 6 * n + 1) if k not in own] + [6 * n + 1]


def run_real(job):
    n, given, points = job
    comb = CombinedInspectionRTA(num_deputies=n, deputy_rta=InspectionRTA(num_deputies=n)) if given else CombinedInspectionRTA(num_deputies=n)
    alone = InspectionRTA(num_deputies=n)
    evs = []
    for x, d in points:
        x, d = np.array(x), np.array(d)
        status, out = call(lambda: comb.filter_control(x, 1., d))
        iv = bool(comb.intervening)
        views = [view_idx(n, i) for i in range(n)]
        outs, ivs = [], []
        for i in range(n):
            s2, o = call(lambda: alone.filter_control(x[np.array(views[i]) - 1], 1., d[3 * i:3 * i + 3]))
            outs += list(np.array(o, dtype=float)) if o is not None else [1e3] * 3
            ivs.append(bool(alone.intervening))
        if status == 'warn':
            status = 'ok'
        evs.append(dict(op='agents', status=status, views=views, comb=[int(round(v * 1e4)) for v in (out if out is not None else [])], alone=[int(round(v * 1e4)) for v in outs], iv=iv, ivs=ivs))
    return evs
