"""Ready-made docking, integrator and inspection modules (C23, C26)."""
import math

import vt

U = 100000
N_DEF, M_DEF = 1027, 12


def R(v):
    return int(round(v * U))


def params(dim, **kw):
    P = dict(dim=dim, n6=N_DEF, m=M_DEF * U, v0=R(.2), v12=4, dist=0, vlim=[10 * U] * 3, euler=False, chief=5 * U, dep=5 * U, rmax=1000 * U, fov=R(1.0471976), sun6=-N_DEF, ndep=5)
    P.update(kw)
    return P


def cfg(name, fam, kind, P, kw=(), lo=-U, hi=U, window=0):
    return dict(name=name, fam=fam, kind=kind, P=P, kw=list(kw), lo=lo, hi=hi, window=window, ops=[])


def unit(rng, n):
    while True:
        v = [rng.gauss(0, 1) for _ in range(n)]
        r = math.sqrt(sum(a * a for a in v))
        if r > .3:
            return [a / r for a in v]


def vec(u, r):
    return [R(a * r) for a in u]


def dock_states(rng, P, k, speed=(.05, .5, .9, .99, 1.01, 1.3), inside=False):
    """states below, near and above the speed limit"""
    D = P['dim']
    out = []
    far = 4000. if P['n6'] < 5000 else 18.
    for j in range(k):
        r = rng.choice([.3, 1., 5., 10., .5]) * far / 10
        lim = P['v0'] / U + P['v12'] / 2. * P['n6'] / 1e6 * (r - P['dist'] / U)
        p, v = unit(rng, D), unit(rng, D)
        if j % 3 == 0:      # heading in
            v = [-a + .3 * b for a, b in zip(p, v)]
            q = math.sqrt(sum(a * a for a in v))
            v = [a / q for a in v]
        sp = abs(lim) * speed[j % len(speed)]
        if inside:      # within every axis limit
            sp = min([sp] + [.97 * P['vlim'][i] / U / max(abs(v[i]), .01) for i in range(D)])
        out.append(vec(p, r) + vec(v, sp))
    return out


def ctl(rng, D, big=1.):
    return [R(rng.choice([-1, -.5, 0, .3, 1]) * big) if rng.random() < .5 else R(rng.uniform(-1, 1) * big) for _ in range(D)]


def docking(ctx, rng):
    out = []
    q = 3 if ctx.thorough else 1
    for dim in (2, 3):
        dflt = params(dim, v12=4 if dim == 2 else 8)
        cust = params(dim, n6=rng.choice([40000, 50000, 60000]), m=R(rng.choice([1.5, 2, 2.5])), v0=R(rng.choice([.3, .5])), v12=rng.choice([3, 4, 5]), dist=R(rng.choice([.5, 1.25])),
                      vlim=[R(v) for v in rng.sample([1.1, 1.6, 2.3, 3.4], 3)])
        names = ['m', 'n', 'v0', 'v1_coef', 'v0_distance', 'x_vel_limit', 'y_vel_limit'] + (['z_vel_limit'] if dim == 3 else [])
        for kind in ('es', 'is', 'ea', 'ia'):
            win = 5 * U if kind in ('is', 'ia') else 0
            sets = [cfg(f'dock{dim}_{kind}_default', 'dock', kind, dflt, window=win),
                    cfg(f'dock{dim}_{kind}_custom', 'dock', kind, dict(cust, euler=False), names + (['backup_window'] if win else []) + ['control_bounds_high', 'control_bounds_low'], lo=R(-.8), hi=R(.9), window=3 * U if win else 0)]
            if kind in ('es', 'is'):
                sets.append(cfg(f'dock{dim}_{kind}_euler', 'dock', kind, dict(cust, euler=True), names + ['integration_method'], window=win))
            elif kind == 'ia':
                sets.append(cfg(f'dock{dim}_{kind}_euler', 'dock', kind, dict(cust, euler=True), names + ['integration_method'], window=win))
            for c in sets:
                P = c['P']
                xs = dock_states(rng, P, 6 * q)
                # velocity limits one axis at a time
                for i in range(dim):
                    x = xs[0][:dim] + [0] * dim
                    x[dim + i] = R(rng.choice([.95, 1.05]) * P['vlim'][i] / U) * rng.choice([-1, 1])
                    xs.append(x)
                xs.append([0] * (2 * dim))
                c['ops'] += [dict(op='h', x=x) for x in xs]
                if kind in ('es', 'is'):
                    c['ops'] += [dict(op='pred', x=x, dt=R(dt), u=ctl(rng, dim)) for x in xs[:5] for dt in ((1, .5) if kind == 'es' else (1, ))]
                    c['ops'] += [dict(op='switch', x=x, dt=R(rng.choice([1, .5])), d=ctl(rng, dim, 1.4)) for x in dock_states(rng, P, (14 if kind == 'es' else 5) * q) + xs[6 * q:-1]]
                else:
                    c['ops'] += [dict(op='f', x=x) for x in xs[:5]] + [dict(op='g', x=xs[0])]
                if kind in ('is', 'ia', 'es'):
                    c['ops'] += [dict(op='backup', x=x) for x in xs[:4] + [xs[0][:dim] + [0] * dim]]
                if kind == 'ea':
                    c['ops'] += [dict(op='asif', x=x, d=ctl(rng, dim, 1.4)) for x in dock_states(rng, P, 24 * q, (.3, .9, .97, .99), True)]
                if kind == 'ia':
                    c['ops'] += [dict(op='same', x=x, d=ctl(rng, dim), dt=U) for x in dock_states(rng, P, 4 * q, (.3, .9, .97, .6), True)]
            # a large safe distance, seen in the speed limit alone
            P = dict(cust, euler=kind == 'is', dist=R(rng.choice([4, 6])))
            far = cfg(f'dock{dim}_{kind}_far', 'dock', kind, P, names, window=win)
            far['ops'] = [dict(op='h', x=x) for x in dock_states(rng, P, 4)]
            # generous velocity limits, one axis at a time
            P = dict(cust, n6=N_DEF, euler=kind == 'is', vlim=[R(v) for v in rng.sample([12.5, 15, 20], 3)])
            swift = cfg(f'dock{dim}_{kind}_swift', 'dock', kind, P, names, window=win)
            for i in range(dim):
                for k in (.95, 1.05):
                    x = dock_states(rng, P, 1)[0][:dim] + [0] * dim
                    x[dim + i] = R(k * P['vlim'][i] / U) * rng.choice([-1, 1])
                    swift['ops'].append(dict(op='h', x=x))
            out += sets + [far, swift]
    return out


def integrator(ctx, rng):
    out = []
    q = 3 if ctx.thorough else 1
    for kind in ('es', 'is', 'ea', 'ia'):
        win = 2 * U if kind in ('is', 'ia') else 0
        # the integrator modules integrate with Euler steps unless told otherwise
        dfl = params(1, m=U, n6=0, euler=kind not in ('ea', ))
        sets = [cfg(f'int_{kind}_default', 'int', kind, dfl, window=win),
                cfg(f'int_{kind}_custom', 'int', kind, dict(dfl, m=R(rng.choice([.5, .8] if kind == 'ea' else [.5, 2, 4]))), ['m', 'control_bounds_high', 'control_bounds_low'] + (['backup_window'] if win else []), lo=R(-1), hi=R(.75), window=3 * U if win else 0)]
        sets.append(cfg(f'int_{kind}_light', 'int', kind, dict(dfl, m=R(.25)), ['m'] + (['backup_window'] if win else []), window=U if win else 0))
        if kind != 'ea':
            sets.append(cfg(f'int_{kind}_rk45', 'int', kind, dict(dfl, euler=False), ['integration_method'], window=win))
        if win:
            sets.append(cfg(f'int_{kind}_wide', 'int', kind, dict(dfl, m=2 * U), ['m', 'backup_window'], window=6 * U))
        for c in sets:
            xs = [[R(-v * v / 2 - e), R(v)] for v in (.3, 1, 1.5, -.5, 2) for e in (-.2, .02, .3)] + [[R(rng.uniform(-3, .5)), R(rng.uniform(-1, 2))] for _ in range(6 * q)]
            c['ops'] += [dict(op='h', x=x) for x in xs]
            if kind in ('es', 'is'):
                c['ops'] += [dict(op='pred', x=x, dt=R(dt), u=ctl(rng, 1)) for x in xs[:6] for dt in (1, .25)]
                c['ops'] += [dict(op='switch', x=x, dt=R(dt), d=ctl(rng, 1, 1.4)) for x in xs for dt in ((.5, .25) if not c['name'].endswith('wide') else (1, 2))]
            else:
                c['ops'] += [dict(op='f', x=x) for x in xs[:5]] + [dict(op='g', x=xs[0])]
            if kind != 'ea':
                c['ops'] += [dict(op='backup', x=x) for x in xs[:3]]
            if kind == 'ea':
                c['ops'] += [dict(op='asif', x=[R(-v * v / 2 - e), R(v)], d=ctl(rng, 1, 1.4)) for v in (.2, .5, 1, 1.4, -.6, 0) for e in (.05, .2, .6, 1.5)]
            if kind == 'ia':
                c['ops'] += [dict(op='same', x=[R(-v * v / 2 - e), R(v)], d=ctl(rng, 1), dt=R(dt)) for v in (.2, .8, -.3) for e in (.1, .5) for dt in (.5, .25)]
        out += sets
    return out


# documented default strengtheners, coefficients of h and h^3 in 1/10000 (docking 3D's own is documented inconsistently and not claimed)
ALPHA = {'int_es': {'rel_vel': [10000, 300000]}, 'int_ea': {'rel_vel': [10000, 300000]}, 'int_is': {'rel_vel': [100000, 300000]}, 'int_ia': {'rel_vel': [100000, 300000]}}
for _k in ('es', 'is', 'ea', 'ia'):
    ALPHA[f'dock2_{_k}'] = {'rel_vel': [100, 1000], 'x_vel': [5, 10], 'y_vel': [5, 10]}
    ALPHA[f'dock3_{_k}'] = {'x_vel': [5, 10], 'y_vel': [5, 10], 'z_vel': [5, 10]}


def with_alpha(cs):
    for c in cs:
        tab = ALPHA[(c['fam'] if c['fam'] == 'int' else f'dock{c["P"]["dim"]}') + '_' + c['kind']]
        c['ops'] += [dict(op='alpha', name=n, c1=a[0], c3=a[1], v=v) for n, a in tab.items() for v in (0, U, -U // 2, R(1.75))]
    return cs


def judge(ctx, cs):
    graphs, inits = vt.explore(ctx, cs, 'MCCwh')
    jobs = []
    for c, g in zip(cs, graphs):
        jobs.append((dict(c, ops=[]), [c['ops'][k] for k in sorted(g['0'])]))
    res = vt.run_jobs(ctx, 'zoo', 'run', jobs)
    slim = [dict(c, ops=[]) for c in cs]
    traces, where = [], []
    for i, e in enumerate(res):      # short traces: a rejected observation hides none of the others
        for j in range(0, len(e), 12):
            traces.append({'c': i + 1, 'ev': e[j:j + 12]})
            where.append(i)
    ctx.samples.append({'config': slim[0]['name'], 'observations': res[0][:3]})
    vt.validate(ctx, 'TraceCwh', {'cfgs': slim, 'traces': traces}, lambda t, l, cl: dict(config=slim[where[t]]['name'], cfg=slim[where[t]], event=traces[t]['ev'][l]))


def c23(ctx):
    judge(ctx, with_alpha(integrator(ctx, ctx.rng) + docking(ctx, ctx.rng)))


def insp_state(rng, P, n):
    """joint state of n spacecraft: near the chief, near each other, near the outer limit"""
    rc, rm, dep = (P['chief'] + P['dep']) / U, P['rmax'] / U, P['dep'] / U
    out = []
    for k in range(n):
        if k == 0 or rng.random() < .5:
            r = rng.choice([rc * .7, rc * .95, rc * 1.05, rc * 1.4, rc * 3, rm * .3, rm * .9, rm * 1.04])
            p = [a * r for a in unit(rng, 3)]
        else:       # close to the first one
            r = 2 * dep * rng.choice([.6, .95, 1.05, 1.5, 3])
            p = [a / U + b * r for a, b in zip(out[0:3], unit(rng, 3))]
        sp = rng.choice([.1, .5, 1., 1.6])
        out += [R(a) for a in p] + [R(a * sp) for a in unit(rng, 3)]
    return out


def sun(rng):
    return R(rng.uniform(-6.5, 6.5))


def inspection(ctx, rng):
    out = []
    q = 4 if ctx.thorough else 1
    dflt = params(3, vlim=[U] * 3)
    names = ['m', 'n', 'chief_radius', 'deputy_radius', 'v0', 'v1_coef', 'v0_distance', 'r_max', 'fov', 'vel_limit', 'sun_vel']

    def custom():
        v = R(rng.choice([.8, 1.2]))
        return params(3, n6=rng.choice([8000, 12000, 15000]), m=R(rng.choice([1.5, 2, 3])), chief=R(rng.choice([2, 3.5])), dep=R(rng.choice([1.5, 2.5])), v0=R(rng.choice([.1, .3])), v12=rng.choice([3, 5, 6]), dist=R(rng.choice([0, 2.5])),
                      rmax=R(rng.choice([60, 90])), fov=R(rng.choice([.6, 1.4])), vlim=[v] * 3, sun6=rng.choice([9000, -14000]))

    sets = [cfg('insp1_default', 'insp1', 'ea', dflt), cfg('insp1_custom', 'insp1', 'ea', custom(), names), cfg('insp1_hocbf', 'insp1', 'ea', custom(), names + ['use_hocbf']), cfg('inspd_default', 'inspd', 'da', dflt),
            cfg('inspd_custom', 'inspd', 'da', custom(), names), cfg('inspn_default', 'inspn', 'ea', dict(dflt, ndep=5))]
    for k in (1, 2, 3) + ((4, 6) if ctx.thorough else ()):
        sets.append(cfg(f'inspn_{k}', 'inspn', 'ea', dict(custom(), ndep=k), names + ['num_deputies']))
    for c in sets:
        P = c['P']
        n = P['ndep'] if c['fam'] == 'inspn' else 1
        tail = lambda: [sun(rng)] + ([] if c['fam'] == 'inspn' else [R(rng.uniform(0, 5))])
        xs = [insp_state(rng, P, n) + tail() for _ in range(max(4, 14 // n) * q)]
        heavy = 2
        for j, x in enumerate(xs):
            only = [] if j < heavy else ['rel_vel', 'x_vel', 'y_vel', 'z_vel', 'chief_collision', 'chief_collision_hocbf', 'sun', 'chief_sun', 'r_max', 'deputy_collision', 'deputy_sun']
            c['ops'].append(dict(op='h', x=x, only=only))
        if c['fam'] == 'inspd':
            c['ops'] += [dict(op='next', x=x, dt=R(dt), u=ctl(rng, 3)) for x in xs[:8] for dt in (1, .5, 2)]
        else:
            c['ops'] += [dict(op='f', x=x) for x in xs[:6]] + [dict(op='g', x=xs[0])]
            if c['fam'] == 'insp1':
                c['ops'] += [dict(op='coast', x=x, dt=R(dt), u=ctl(rng, 3)) for x in xs[:4] for dt in (1, .5)]
        if c['fam'] != 'inspd' and c['kw']:
            # passive safety on orbits fast enough to curve, with few steps so that each matters
            Pf = dict(P, n6=rng.choice([100000, 200000, 400000]))
            c2 = dict(c, name=c['name'] + '_psm', P=Pf, ops=[])
            for j in range(6 * q):
                x = insp_state(rng, dict(P, rmax=30 * U), n) + tail()
                c2['ops'].append(dict(op='psm', x=x, dt=R(rng.choice([.5, 1, 2])), steps=rng.choice([1, 2, 5, 12]), k=j % n))
            c2['psm'] = True
            out.append(c2)
        out.append(c)
    return out


def c26(ctx):
    judge(ctx, inspection(ctx, ctx.rng))
