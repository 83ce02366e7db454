"""Sample-testing modules of the library around the specification's modules."""
import ast
import csv
import glob
import os
import shutil
import tempfile

import numpy as np

from toys import build as build_module, call, do_other, unit
from run_time_assurance.utils import sample_testing as st
from run_time_assurance.rta import RTAModule


def sc(v):
    return [int(np.clip(round(float(a) * 1000), -2**30, 2**30)) for a in np.asarray(v, dtype=float).ravel()]


def mats(s):
    u = unit(s['rta'])
    return {k: np.array(s[k], dtype=float) * (u if k in ('c', 'k') else 1.) for k in ('A', 'c', 'B', 'K', 'k')}


def build(s):
    """the module under test, with the settings the test starts from"""
    rta = build_module(s['rta'])
    for n, op in enumerate(s['pre']):
        do_other(rta, op, n)
    return rta


class _Plant:
    u = 1.

    def _setup(self, s):
        self.s = s
        self.M = mats(s)
        self.u = unit(s['rta'])
        self.i = 0

    def _get_initial_state(self):
        x = np.array(self.s['ics'][self.i % len(self.s['ics'])], dtype=float) * self.u
        if self.i >= len(self.s['ics']):
            raise RuntimeError('more initial states drawn than the specification allows')
        self.i += 1
        return x

    def _pred_state(self, state, step_size, control):
        f = self.s['h'] if self.s['rta']['mode'] == 'ct' else 1
        return np.array(state, dtype=float) + f * (self.M['A'] @ state + self.M['c'] + self.M['B'] @ np.asarray(control, dtype=float))

    def _desired_control(self, state):
        return self.M['K'] @ state + self.M['k']

    def _check_done_conditions(self, state, time):
        if self.s['done'] and state[0] >= self.s['done'][0] * self.u:
            return True
        return super()._check_done_conditions(state, time)


class Safety(_Plant, st.SafetyAssuranceSampleTestingModule):
    def _transform_state(self, state):
        return state + np.array(self.s['off'], dtype=float) * self.u


class Track(_Plant, st.DataTrackingSampleTestingModule):
    def _get_initial_state(self):
        return super()._get_initial_state() + np.array(self.s['off'], dtype=float) * self.u


def kwargs(s):
    return dict(simulation_time=s['tlim'] / 1000., step_size=s['dtm'] / 1000., control_dim=len(s['B'][0]), state_dim=len(s['A']))


def read_rows(d):
    files = sorted(glob.glob(os.path.join(d, '**', '*.csv'), recursive=True))
    rows = []
    for f in files:
        with open(f, newline='') as h:
            for r in csv.reader(h):
                if r:
                    rows.append((r[0], ast.literal_eval(r[1])))
    return files, rows


def run_safety(s):
    scratch = tempfile.mkdtemp(prefix='rta_sample_')
    try:
        t = Safety(rta=build(s), n_points=s['n'], **kwargs(s))
        t._setup(s)
        status, _ = call(lambda: t.run_sample_test(os.path.join(scratch, 'results', 'deep')))
        files, rows = read_rows(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    evs = [dict(op='row', safe={'True': True, 'False': False}.get(v, v), x0=sc(np.array(x) / t.u)) for v, x in rows]
    return evs + [dict(op='end', status='ok' if status == 'warn' else status, files=len(files))]


def run_track(s):
    t = Track(rta=build(s), check_init_state=s['check'], **kwargs(s))
    t._setup(s)
    status, r = call(t.simulate_episode)
    if r is None:
        return [dict(op='finish', status=status, lens=[0, 0, 0])]
    xs, us, ivs = np.array(r[0]) / t.u, np.array(r[1]) / t.u, r[2]
    evs = []
    for j in range(len(xs)):
        if j < len(us) and j < len(ivs):
            evs.append(dict(op='start' if j == 0 else 'step', x=sc(xs[j]), u=sc(us[j]), iv=bool(ivs[j])))
    return evs + [dict(op='finish', status='ok' if status == 'warn' else status, lens=[len(xs), len(us), len(ivs)])]


class _Always(RTAModule):
    pass


class LHS(_Plant, st.LatinHypercubeRandomSampleTestingModule):
    _get_initial_state = st.LatinHypercubeRandomSampleTestingModule._get_initial_state


class PAR(_Plant, st.ParametricRandomSampleTestingModule):
    _get_initial_state = st.ParametricRandomSampleTestingModule._get_initial_state


def run_samplers(job):
    """the built-in samplers: component ranges, no repetition, rows recorded are the states drawn"""
    s, kind, lo, hi, pdfs, seed = job
    np.random.seed(seed)
    scratch = tempfile.mkdtemp(prefix='rta_sample_')
    drawn = []
    try:
        if kind == 'lhs':
            t = LHS(rta=build(s), n_points=s['n'], bounds=np.array([lo, hi], dtype=float), multiplier=6, **kwargs(s))
        else:
            t = PAR(rta=build(s), n_points=s['n'], state_pdfs=pdfs, distribution_params=np.array([lo, hi], dtype=float), **kwargs(s))
        t.s = s
        t.M = mats(s)
        inner = t._get_initial_state

        def spy():
            x = inner()
            drawn.append(np.array(x, dtype=float))
            return x

        t._get_initial_state = spy
        status, _ = call(lambda: t.run_sample_test(scratch))
        files, rows = read_rows(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    evs = []
    rl, rh = list(lo), list(hi)
    for i, p in enumerate(pdfs or []):
        if p == 'constant':
            rh[i] = lo[i]
        if p == 'gaussian':
            rl[i], rh[i] = lo[i] - 8 * hi[i], lo[i] + 8 * hi[i]
    for x in drawn:
        evs.append(dict(op='draw', x=sc(x), lo=sc(rl), hi=sc(rh)))
    for a, b in zip(drawn, drawn[1:]):
        evs.append(dict(op='distinct', a=' '.join(v.hex() for v in a), b=' '.join(v.hex() for v in b)))
    texts = {' '.join(float(v).hex() for v in a) for a in drawn}
    for v, x in rows:
        key = ' '.join(float(q).hex() for q in x)
        evs.append(dict(op='agree', a=key, b=key if key in texts else 'not a drawn state', what='recorded initial state was never drawn'))
        evs.append(dict(op='flight', safe=v == 'True', **flight(s, t, np.array(x))))
    evs.append(dict(op='agree', a=len(rows), b=s['n'], what='number of episodes'))
    evs.append(dict(op='agree', a=status if status != 'warn' else 'ok', b='ok', what='status'))
    return evs


def flight(s, t, x):
    """states of the episode from x under a fresh module (judged by the specification)"""
    rta = build(s)
    xs, raised = [], False
    while True:
        status, u = call(lambda: rta.filter_control(x, s['dtm'] / 1000., t._desired_control(x)))
        if status == 'solver_error':
            raised = True
            break
        x = t._pred_state(x, s['dtm'] / 1000., u)
        xs.append(sc(x))
        if len(xs) >= s['steps'] or (s['done'] and x[0] >= s['done'][0]):
            break
    return dict(xs=xs, raised=raised)


# ---------------------------------------------------------------- ready-made sample tests
def run_zoo(job):
    """the docking sample tests: draws, plant and verdicts of a short run; margins are the module's logged constraint values"""
    import importlib
    z = importlib.import_module('run_time_assurance.zoo.cwh.random_sample_testing')
    d2 = importlib.import_module('run_time_assurance.zoo.cwh.docking_2d')
    np.random.seed(job['seed'])
    rta = {'default': lambda: None, 'ea': d2.Docking2dExplicitOptimizationRTA, 'es': d2.Docking2dExplicitSwitchingRTA}[job['rta']]()
    cls = {'lhs': z.Docking2DLatinHypercubeRandomSampleTest, 'par': z.Docking2DParametricRandomSampleTest}[job['kind']]
    kw = dict(n_points=job['n'], simulation_time=job['steps'] * job['dtm'] / 1000., step_size=job['dtm'] / 1000.)
    if job['kind'] == 'lhs':
        kw['multiplier'] = 40
    if job['lo']:
        kw['bounds' if job['kind'] == 'lhs' else 'distribution_params'] = np.array([job['lo'], job['hi']], dtype=float)
    if job['kind'] == 'par' and job['pdfs']:
        kw['state_pdfs'] = job['pdfs']
    t = cls(**kw) if rta is None else cls(rta=rta, **kw)
    law = np.array(job['law'], dtype=float)
    t._desired_control = lambda state: law
    drawn, steps = [], []
    ini, pred, filt = t._get_initial_state, t._pred_state, t.rta.filter_control
    raised = []

    def spy_ini():
        x = ini()
        drawn.append(np.array(x, dtype=float))
        steps.append([])
        raised.append(False)
        return x

    def spy_filt(x, dt, d):
        try:
            return filt(x, dt, d)
        except Exception:
            raised[-1] = True
            raise

    def spy_pred(x, dt, u):
        y = pred(x, dt, u)
        steps[-1].append((np.array(x, dtype=float), float(dt), np.array(u, dtype=float), np.array(y, dtype=float)))
        return y

    t._get_initial_state, t._pred_state, t.rta.filter_control = spy_ini, spy_pred, spy_filt
    scratch = tempfile.mkdtemp(prefix='rta_sample_')
    try:
        status, _ = call(lambda: t.run_sample_test(scratch))
        files, rows = read_rows(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    lo, hi = job['lo'] or job['dlo'], job['hi'] or job['dhi']
    rl, rh = list(lo), list(hi)
    for i, p in enumerate(job['pdfs'] or ['gaussian'] * 4 if job['kind'] == 'par' else []):
        if p == 'constant':
            rh[i] = lo[i]
        if p == 'gaussian':
            rl[i], rh[i] = lo[i] - 8 * hi[i], lo[i] + 8 * hi[i]
    evs = [dict(op='draw', x=mm(x), lo=mm(rl), hi=mm(rh)) for x in drawn]
    model = d2.Docking2dImplicitSwitchingRTA()
    phis = lambda x: [int(np.clip(round(float(c.phi(np.array(x, dtype=np.float32), c.params)) * 1000), -2**30, 2**30)) for c in t.rta.constraints.values()]
    used = 0
    for v, x in rows:
        k = next((j for j in range(used, len(drawn)) if drawn[j].tolist() == x), -1)
        evs.append(dict(op='agree', a=k >= 0, b=True, what='recorded initial state was never drawn'))
        if k < 0:
            continue
        for j in range(used, k):
            evs.append(dict(op='refused', ms=phis(drawn[j]) + barriers(t.rta, drawn[j])))
        used = k + 1
        evs.append(dict(op='accepted', ms=phis(drawn[k]) + barriers(t.rta, drawn[k])))
        evs.append(dict(op='flown', safe=v == 'True', raised=raised[k], n=len(steps[k]), lim=job['steps'], ms=[phis(y) for *_, y in steps[k]]))
        prev = drawn[k]
        for a, dt, u, y in steps[k]:
            want = np.array(model._pred_state(a.astype(np.float32), dt, u.astype(np.float32)), dtype=float)
            evs.append(dict(op='plant', chained=bool(np.allclose(prev, a, rtol=1e-6, atol=1e-6)), dt=round(dt * 1000), dtm=job['dtm'], y=mm(y), want=mm(want), tol=int(20 + 2e-3 * np.abs(a).max() * 1000 / 100)))
            prev = y
    evs.append(dict(op='agree', a=len(rows), b=job['n'], what='number of episodes'))
    evs.append(dict(op='agree', a=status if status != 'warn' else 'ok', b='ok', what='status'))
    return evs


def mm(v):
    """thousandths, clipped to the specification's number range"""
    return [int(np.clip(round(float(a) * 1000), -2**30, 2**30)) for a in np.asarray(v, dtype=float).ravel()]


def barriers(rta, x):
    return [int(np.clip(round(float(c(np.array(x, dtype=np.float32), c.params)) * 1000), -2**30, 2**30)) for c in rta.constraints.values()]
