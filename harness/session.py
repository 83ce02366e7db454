"""Sessions of calls on instances of ready-made modules."""
import numpy as np
import jax.numpy as jnp

import zoo
import deltav
from toys import call, hexs
from run_time_assurance.rta import CascadedRTA
from run_time_assurance.zoo.cwh import inspection_1v1 as i1, inspection_3d as i3

U = 100000
ODD = ([float('nan'), 1., -2.], [float('inf'), -float('inf'), .5], [-0., 5e-324, 1 / 3], [1e300, -1e-300, 2.**53 + 1], [1 / 3, 0., float('nan')])


def fx(v):
    v = float(v) * U
    return int(np.clip(round(v), -10**9, 10**9)) if np.isfinite(v) else 10**9 + 1


def make(m, kw, base):
    kw = dict(kw)
    for k in ('control_bounds_high', 'control_bounds_low'):
        if isinstance(kw.get(k), dict):         # {'array': [...]}
            kw[k] = np.array(kw[k]['array'], dtype=float)
    if m == 'deltav':
        return deltav.build(base, **kw)
    if m == 'cascade':
        return deltav.with_gains(base, i1.InspectionCascadedRTA)(**kw)
    if m == 'combined':
        return i3.CombinedInspectionRTA(**kw)
    fam, kind = m.rsplit('_', 1)
    return zoo.CLS[fam][kind](**kw)


def state(pool, k, form):
    a = np.array(pool[k - 1], dtype=float) / U
    return jnp.array(a) if form else a


def run(job):
    c, acts = job
    inst, evs = {}, []
    for n, a in enumerate(acts):
        op = a['op']
        ev = dict(a)
        if op == 'new':
            kw = dict(c['kw'])
            kw.update(a['kw'])
            if not a['all']:
                kw['constraints_to_use'] = list(a['sel'])
            if a.get('jit') is not None:
                kw.update(a['jit'])

            def act():
                r = make(c['mod'], kw, c.get('base'))
                if a.get('tweak'):      # another instance's deputies are not these deputies
                    for name, con in r.deputy_rta.constraints.items():
                        if name in ('chief_collision', 'rel_vel'):
                            con.enabled = False
                        elif name.endswith('_vel'):
                            con.params['limit_val'] = .05
                for k in a['cons']:
                    if k['pre']:      # settings that are not constructor arguments, applied before the first call
                        setting(r, c, k['n'], k['v'], 0)
                    if not k['on']:
                        r.constraints[k['n']].enabled = False
                return r
            status, r = call(act)
            ev.pop('kw')
            ev.pop('jit', None)
            ev.update(status=status, names=list(r.constraints.keys()) if hasattr(r, 'constraints') else [])
            if r is not None:
                inst[a['i']] = r
                known = {k['n']: k for k in a['cons']}
                ev['cons'] = [dict(n=k, v=known[k]['v'] if k in known else 0, on=known[k]['on'] if k in known else True) for k in ev['names']]
            evs.append(ev)
            if r is None and ev['all']:
                return evs
            continue
        if a['i'] not in inst:
            continue
        r = inst[a['i']]
        if op == 'filter':
            x = state(c['xs'], a['x'], a.get('form', n) % 3 == 1 and c['jnp'])
            d = np.array(c['ds'][a['d'] - 1], dtype=float) / U
            if not r.enable and n % 2:      # a switched-off module passes anything
                d = np.resize(np.array(ODD[n % len(ODD)]), d.shape)
            x0, d0 = np.array(x), d.copy()
            status, out = call(lambda: r.filter_control(x, c['hs'][a['h'] - 1] / U, d))
            ev.update(status=status, pure=bool(np.array_equal(np.array(x), x0) and np.array_equal(d, d0, equal_nan=True)), dx=hexs(d0), outx=hexs(out), out=[] if out is None else [fx(v) for v in np.asarray(out).ravel()], dv=[fx(v) for v in d0], iv=bool(r.intervening))
            if out is not None and len(ev['out']) != len(ev['dv']):
                ev['status'] = 'error:shape'
            d[:] = 777.
            if isinstance(out, np.ndarray):
                out[:] = -777.
            if isinstance(x, np.ndarray):
                x[:] = 999.
        elif op == 'info':
            status, info = call(r.generate_info)
            ev.update(status=status, en=False, iv=False, des='', act='', key='', vals=[])
            if info is not None:
                key = [k for k in ('constraints', 'constraints_at_last_state') if k in info]
                ev.update(en=bool(info['enable']), iv=bool(info['intervening']), des=hexs(info['control_desired']), act=hexs(info['control_actual']), key='+'.join(key),
                          vals=[{'k': k, 'v': fx(v)} for k, v in (info[key[0]] if len(key) == 1 else {}).items()])
        elif op == 'eval':
            x = state(c['xs'], a['x'], True)
            status, v = call(lambda: [{'k': k, 'v': fx(con.phi(x, con.params))} for k, con in r.constraints.items()])
            ev.update(status=status, vals=v or [])
        else:
            def act():
                if op in ('on', 'off'):
                    r.enable = op == 'on'
                elif op == 'reset':
                    r.reset()
                elif op == 'upd':
                    x = state(c['xs'], a['x'], n % 2)
                    r.update_constraint_values(x)
                    if isinstance(x, np.ndarray):
                        x[:] = 999.
                elif op == 'ver':
                    setting(r, c, a['n'], a['v'], n)
                elif op == 'con':
                    r.constraints[a['n']].enabled = a['v']
            status, _ = call(act)
            ev['status'] = status
        evs.append(ev)
    return evs


def setting(r, c, name, ver, n):
    con = r.constraints[name]
    val = c['versions'][name][ver]
    if n % 2:
        for k, v in val.items():
            con.params[k] = v
    else:
        con.params = dict(con.params, **val)


def short(job):
    """an inspection module that is given a state without sun angle in between; the drift is observed as well"""
    c, _ = job
    evs = run((c, [dict(op='new', i=1, all=True, sel=[], var=1, kw={}, jit=None, cons=[])]))
    status, r = call(lambda: make(c['mod'], c['kw'], None))
    for k in (1, 2, 1):
        x, d = np.array(c['xs'][k - 1], dtype=float) / U, np.array(c['ds'][0], dtype=float) / U
        status, out = call(lambda: r.filter_control(x, 1., d))
        full = np.array(c['xs'][0], dtype=float) / U
        s2, drift = call(lambda: np.asarray(r.state_transition_system(jnp.array(full))).ravel())
        vals = [] if out is None or drift is None else [fx(v) for v in list(out) + list(drift)]
        evs.append(dict(op='filter', i=1, x=k, h=1, d=1, status=status, pure=True, dx='', outx='', out=vals, dv=vals, iv=bool(r.intervening)))
    return evs


def chain(job):
    """a cascade of ready-made stages, and equal stages used one after the other on their own"""
    c, walk = job

    def build():
        return [make(m, kw, c['base']) if m != 'deltav' else deltav.with_gains(c['base'], i1.SwitchingDeltaVLimitRTA)(**kw) for m, kw in c['stages']]

    class Generic(CascadedRTA):
        def _setup_rta_list(self):
            return build()
    b = c['bound']
    kw = {} if b is None else dict(control_bounds_high=b, control_bounds_low=[-v for v in b] if isinstance(b, list) else -b)
    casc = deltav.with_gains(c['base'], i1.InspectionCascadedRTA)(**kw) if c['kind'] == 'inspection' else Generic(**kw)
    alone = build()
    evs, en = [], True
    for a in walk:
        if a['op'] in ('on', 'off'):
            casc.enable = en = a['op'] == 'on'
        elif a['op'] == 'reset':
            casc.reset()
            en = True
            for s in alone:
                s.reset()
        elif a['op'] == 'filter':
            x, d, h = state(c['xs'], a['x'], False), np.array(c['ds'][a['d'] - 1], dtype=float) / U, (1., .5)[a['h'] - 1]
            status, out = call(lambda: casc.filter_control(x.copy(), h, d.copy()))
            stages, u = [], d.copy()
            if en:
                for s in alone:
                    inp = [fx(v) for v in u]
                    _, u = call(lambda: s.filter_control(x.copy(), h, u.copy()))
                    if u is None:
                        break
                    u = np.array(u)
                    stages.append(dict(inp=inp, out=[fx(v) for v in u], iv=bool(s.intervening)))
            evs.append(dict(op='chain', status=status, en=en, x=a['x'], dx=hexs(d), outx=hexs(out), dv=[fx(v) for v in d], out=[] if out is None else [fx(v) for v in out], stages=stages, iv=bool(casc.intervening)))
    return evs
