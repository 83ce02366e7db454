"""The same properties on the ready-made modules: sessions of calls on several instances, judged by TraceSession."""
import vt
from props_cwh import U, R, params, dock_states, insp_state, sun, unit

DOCK_V = {'rel_vel': [dict(v0=.2), dict(v0=.35), dict(v0=.05)], 'x_vel': [dict(limit_val=10), dict(limit_val=.4), dict(limit_val=.15)]}
DOCK_CTOR = {'rel_vel': [dict(v0=.2), dict(v0=.35), dict(v0=.05)], 'x_vel': [dict(x_vel_limit=10), dict(x_vel_limit=.4), dict(x_vel_limit=.15)]}
INSP_V = {'chief_collision': [dict(collision_radius=10), dict(collision_radius=45), dict(collision_radius=20)], 'y_vel': [dict(limit_val=1), dict(limit_val=.3), dict(limit_val=.12)]}


def ctl(rng, D, k):
    out = [[0] * D, [U] * D, [-U] * D]
    while len(out) < k:
        out.append([R(rng.uniform(-1, 1)) for _ in range(D)])
    return out


def module(name, mod, D, xs, ds, free=True, kw=None, versions=None, ctor=None, hs=(U, U // 2), tol=3, eps=0, jnp=True, base=None, lo=None, hi=None, loose=False, jits=(), sels=()):
    return dict(name=name, mod=mod, kw=kw or {}, free=free, xs=xs, ds=ds, hs=list(hs), tol=tol, eps=eps, jnp=jnp, base=base, versions=versions or {}, ctor=ctor or {}, track=sorted(versions or {}),
                lo=lo or [[-U]] * D, hi=hi or [[U]] * D, loose=loose, jits=list(jits), sels=[list(s) for s in sels])


# subroutines these modules compile by default; the others call solvers that cannot be compiled
JITS = {'es': ['constraint_violation'], 'is': ['constraint_violation'], 'ea': ['generate_barrier_constraint_mats'], 'ia': ['generate_ineq_constraint_mats'], 'da': []}


def int_states(rng, k):
    return [[R(-v * v / 2 - e), R(v)] for v, e in ((1, .3), (1, -.2), (.3, .02), (1.5, .1), (0, 0))] + [[R(rng.uniform(-3, .5)), R(rng.uniform(-1, 2))] for _ in range(max(0, k - 5))]


def modules(rng, nx=6, nd=4, stateful=True):
    out = []
    for kind in ('es', 'is', 'ea', 'ia'):
        eps = 1000 if kind in ('ea', 'ia') else 0
        out.append(module(f'int_{kind}', f'int_{kind}', 1, int_states(rng, nx), ctl(rng, 1, nd), eps=eps, versions={'rel_vel': [{}]}, jits=JITS[kind], sels=(['rel_vel'], )))
        for dim in (2, 3):
            P = params(dim, v12=4 if dim == 2 else 8)
            xs = dock_states(rng, P, nx)
            xs[0] = [R(a * 20) for a in unit(rng, dim)] + [R(.3)] + [R(.1)] * (dim - 1)
            sels = (['rel_vel'], ['y_vel', 'rel_vel'], ['x_vel', 'nothing'])
            out.append(module(f'dock{dim}_{kind}', f'dock{dim}_{kind}', dim, xs, ctl(rng, dim, nd), eps=eps, versions=DOCK_V, ctor=DOCK_CTOR, jits=JITS[kind], sels=sels))
    P = params(3, vlim=[U] * 3, rmax=1000 * U)
    isels = (['chief_collision'], ['z_vel', 'sun', 'rel_vel'], ['PSM', 'r_max', 'x_vel'])
    ixs = lambda n, tail: [insp_state(rng, P, n) + tail() for _ in range(nx - 2)] + [[R(60), R(-20), R(15)] + [R(-.2), R(.1), R(.05)] + ([R(a) for a in (40, 30, -20, .1, 0, .1)] if n == 2 else []) + tail(),
                                                                                     [R(25), R(5), R(-15)] + [R(-.25), R(.02), R(.1)] + ([R(a) for a in (-40, 30, 20, .1, 0, .1)] if n == 2 else []) + tail()]
    t8 = lambda: [sun(rng), R(rng.uniform(0, 5))]
    out.append(module('insp1_ea', 'insp1_ea', 3, ixs(1, t8), ctl(rng, 3, nd), eps=1000, versions=INSP_V, sels=isels, tol=5))
    out.append(module('insp1_hocbf', 'insp1_ea', 3, ixs(1, t8), ctl(rng, 3, nd), eps=1000, kw=dict(use_hocbf=True), versions={'y_vel': INSP_V['y_vel']}, tol=5, sels=(['chief_collision_hocbf', 'rel_vel'], )))
    out.append(module('inspd_da', 'inspd_da', 3, ixs(1, t8), ctl(rng, 3, nd), eps=1000, versions=INSP_V, sels=isels[:2], tol=40, loose=True))
    isels2 = (['deputy_collision_1', 'rel_vel'], ['chief_sun', 'deputy_sun_1'], ['deputy_PSM_1', 'chief_collision'])
    out.append(module('inspn_ea', 'inspn_ea', 3, ixs(2, lambda: [sun(rng)]), ctl(rng, 3, nd), eps=1000, kw=dict(num_deputies=2), versions=dict(INSP_V, deputy_collision_1=INSP_V['chief_collision']), sels=isels2, tol=5))
    out.append(module('combined', 'combined', 6, ixs(2, lambda: [sun(rng)]), ctl(rng, 6, nd), kw=dict(num_deputies=2), tol=5, jnp=False))
    if stateful:
        for kind in ('es', 'is'):
            P2 = params(2)
            out.append(module(f'dock2_{kind}_latched', f'dock2_{kind}', 2, dock_states(rng, P2, nx), ctl(rng, 2, nd), free=False, kw=dict(latch_time=1.5), versions=DOCK_V, ctor=DOCK_CTOR))
        base = dict(m=2, n=.1, lim2=int(4 * 2 * 4096), steps=4, K1=[[0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 2, 0], [0, 0, 0, 1, 1, 0]], K2=[[0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 1, 0], [0] * 6])
        dxs = [[R(v) for v in (2, 3, 1, .3, -.2, .1, 0, w)] for w in (0, 1, 2, 3, 3.9, 5)]
        out.append(module('deltav', 'deltav', 3, dxs, ctl(rng, 3, nd), free=False, base=base, jnp=False))
        b12 = dict(base, m=12, n=.001027)
        cxs = ixs(1, lambda: [sun(rng), R(rng.choice([1, 19.5, 25]))])
        out.append(module('cascade', 'cascade', 3, cxs, ctl(rng, 3, nd), free=False, base=b12, jnp=False, tol=5))
    return out


def ops_for(m, rng, kinds, nf=8):
    """the alphabet: filtering calls plus the named other operations"""
    fs = [dict(op='filter', x=x, h=h, d=d) for x in range(1, len(m['xs']) + 1) for d in range(1, len(m['ds']) + 1) for h in (1, 2)]
    fs = rng.sample(fs, min(nf, len(fs)))
    for j, f in enumerate(fs):
        f['k'] = f'filter{j % 2}'
    out = list(fs)
    has = bool(m['track'])
    for k in kinds:
        if k in ('on', 'off', 'reset', 'info'):
            out.append(dict(op=k, k=k))
        elif k == 'upd' and has:
            out += [dict(op='upd', x=x, k='upd') for x in rng.sample(range(1, len(m['xs']) + 1), 2)]
        elif k == 'ver':
            out += [dict(op='ver', n=n, ci=i, v=v, k='ver') for i, n in enumerate(m['track']) for v in range(len(m['versions'][n])) if len(m['versions'][n]) > 1]
        elif k == 'con':
            out += [dict(op='con', n=n, ci=i, v=v, k='con') for i, n in enumerate(m['track']) for v in (True, False)]
    return out


def explore(ctx, mods, kinds, limit, nf=8):
    """walks through the session graph of every module"""
    cs = [dict(name=m['name'], names=m['track'], track=m['track'], ops=ops_for(m, ctx.rng, kinds, nf)) for m in mods]
    graphs, inits = vt.explore(ctx, cs, 'MCSession')
    walks = []
    for c, g, s0 in zip(cs, graphs, inits):
        walk, left = vt.cover_walk(g, s0, len(c['ops']), ctx.rng, limit)
        walks.append([dict(c['ops'][k]) for k in walk])
        ctx.notes['session_transitions_not_replayed'] = ctx.notes.get('session_transitions_not_replayed', 0) + left
    return walks


def new(m, i, ver=None, on=None, sel=None, var=1, kw=None, jit=None, route='ctor'):
    ver, on, kw, cons = ver or {}, on or {}, dict(kw or {}), []
    for n in m['track'] + [k for k in on if k not in m['track']]:
        v = ver.get(n, 0)
        pre = v != 0
        if v and route == 'ctor' and n in m['ctor']:
            kw.update(m['ctor'][n][v])
            pre = False
        cons.append(dict(n=n, v=v, on=on.get(n, True), pre=pre))
    return dict(op='new', i=i, all=sel is None, sel=sel or [], var=var, kw=kw, jit=jit, cons=cons)


def on_inst(walk, i):
    return [dict(a, i=i) for a in walk]


def judge(ctx, mods, acts, clauses, site=None):
    res = vt.run_jobs(ctx, 'session', 'run', list(zip(mods, acts)))
    slim = [{k: m[k] for k in ('name', 'free', 'tol', 'eps', 'lo', 'hi', 'loose')} for m in mods]
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    ctx.samples.append({'module': slim[0]['name'], 'calls': res[0][:3]})
    stats = {}
    for e in res:
        for v in e:
            if v['op'] == 'filter':
                k = v['status'] + ('+intervening' if v['iv'] else '')
                stats[k] = stats.get(k, 0) + 1
    ctx.notes['ready_made_calls'] = stats
    vt.validate(ctx, 'TraceSession', {'cfgs': slim, 'traces': traces, 'judge': clauses},
                lambda t, l, cl: dict(module=mods[t]['name'], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 6):l], state=mods[t]['xs'][traces[t]['ev'][l]['x'] - 1] if 'x' in traces[t]['ev'][l] else None))


def settings(m, walk, upto=None):
    """the settings in force after a walk"""
    ver, on = {n: 0 for n in m['track']}, {n: True for n in m['track']}
    for a in walk[:upto]:
        if a['op'] == 'ver':
            ver[a['n']] = a['v']
        elif a['op'] == 'con':
            on[a['n']] = a['v']
    return ver, on


# ------------------------------------------------------------------ C01
def bounds(ctx):
    rng = ctx.rng
    mods = []
    for m in modules(rng, 8 if ctx.thorough else 6, 5):
        D = len(m['ds'][0])
        m['ds'] = m['ds'][:2] + [[R(rng.choice([-1, 1]) * rng.choice([1.2, 5, 50])) for _ in range(D)] for _ in range(4)]
        scale = 30
        if not m['name'].startswith('int'):
            m['xs'] = m['xs'] + [[R(rng.uniform(-1, 1)) * (40 if j < 3 else scale) for j in range(len(x))] for x in m['xs'][:2]]
        mods.append(m)
        vari = []
        per = [rng.choice([.3, .5, .7, 1.]) for _ in range(D)]
        if m['mod'] == 'cascade':
            vari = [('list', [-.5, -.4, -.9], [.2, .6, .3]), ('array', [-.9, .2, -.9], [-.3, .6, -.1])]
        elif m['mod'] == 'combined':
            vari = [('array', [-.5, -.4, -.9] * 2, [.2, .6, .3] * 2), ('list', [-.8, .2, -.9] * 2, [-.3, .6, -.1] * 2)]
        elif m['mod'] == 'deltav':
            vari = [('scalar', -.5, .25), ('array', [-.5, -.4, -.9], [.2, .6, .3])]
        else:
            vari = [('scalar', -.6, .4), ('list', [-p for p in per], [p * .8 for p in per]), ('array', [-p * .5 for p in per], per)]
            vari = vari if ctx.thorough else rng.sample(vari, 2)
        for form, lo, hi in vari:
            wrap = (lambda v: {'array': v}) if form == 'array' else (lambda v: v)
            ls, hs = (lo, hi) if form != 'scalar' else ([lo] * D, [hi] * D)
            mods.append(dict(m, name=f'{m["name"]}_{form}', kw=dict(m['kw'], control_bounds_low=wrap(lo), control_bounds_high=wrap(hi)), lo=[[R(v)] for v in ls], hi=[[R(v)] for v in hs]))
    walks = explore(ctx, mods, ('reset', 'ver', 'con'), 250 if ctx.thorough else 60, 24)
    judge(ctx, mods, [[new(m, 1)] + on_inst(w, 1) for m, w in zip(mods, walks)], ['bounds'])


# ------------------------------------------------------------------ C02
def disabled_pairs(ctx):
    mods = modules(ctx.rng)
    walks = explore(ctx, mods, ('on', 'off', 'upd', 'reset'), 400 if ctx.thorough else 110)
    acts = []
    for m, w in zip(mods, walks):
        a, en = [new(m, 1)] + on_inst(w, 1) + [new(m, 2)], True
        for op in w:
            en = {'on': True, 'off': False, 'reset': True}.get(op['op'], en)
            if op['op'] in ('reset', ) or (op['op'] == 'filter' and en):
                a.append(dict(op, i=2))
        acts.append(a)
    judge(ctx, mods, acts, ['decision', 'passthrough'])


# ------------------------------------------------------------------ C07
def reset_pairs(ctx):
    rng = ctx.rng
    mods = modules(rng)
    walks = explore(ctx, mods, ('on', 'off', 'reset', 'upd', 'info', 'ver'), 500 if ctx.thorough else 150, 6)
    acts = []
    for m, w in zip(mods, walks):
        a = [new(m, 1)]
        cut = []
        for op in w:
            a.append(dict(op, i=1))
            if op['op'] == 'reset':
                a.append(dict(op='info', i=1))
                cut.append(len(a))
        nxt = 2
        for c in rng.sample(cut, min(len(cut), 12 if ctx.thorough else 4)):
            ver, on = settings(m, a[1:c])
            a.append(new(m, nxt, ver, on))
            for op in a[c:c + 14]:
                if op['op'] in ('reset', 'new'):
                    break
                a.append(dict(op, i=nxt))
            nxt += 1
        acts.append(a)
    judge(ctx, mods, acts, ['decision', 'telemetry'])


# ------------------------------------------------------------------ C11
def live_params(ctx):
    rng = ctx.rng
    mods = [m for m in modules(rng, stateful=False) if m['track']]
    walks = explore(ctx, mods, ('ver', 'con'), 700 if ctx.thorough else 160, 10)
    acts = []
    for m, w in zip(mods, walks):
        a = [new(m, 1)] + on_inst(w, 1)
        seen = {}
        for k, op in enumerate(w):
            if op['op'] == 'filter':
                ver, on = settings(m, w, k)
                seen.setdefault((tuple(sorted(ver.items())), tuple(sorted(on.items()))), []).append(op)
        keys = rng.sample(sorted(seen), min(len(seen), 30 if ctx.thorough else 8))
        for j, s in enumerate(keys):
            a.append(new(m, j + 2, dict(s[0]), dict(s[1]), route='ctor' if j % 2 else 'pre', jit=dict(jit_enable=False) if j % 4 == 3 and m['name'].startswith(('dock', 'int')) else None))
            a += [dict(op, i=j + 2) for op in seen[s]]
        # a parameter of a disabled constraint, and a constraint that is off from the start
        acts.append(a)
    mm = [dict(m, tol=max(20, m['tol'])) for m in mods]
    judge(ctx, mm, acts, ['decision'])


# ------------------------------------------------------------------ C12
def telemetry(ctx):
    mods = modules(ctx.rng)
    walks = explore(ctx, mods, ('on', 'off', 'reset', 'upd', 'ver', 'con'), 500 if ctx.thorough else 120)
    acts = []
    for m, w in zip(mods, walks):
        a = [new(m, 1)]
        if m['track']:
            a.append(new(m, 2))
            a += [dict(op='eval', i=2, x=x) for x in range(1, len(m['xs']) + 1)]
            for n in m['track']:
                for v in range(1, len(m['versions'][n])):
                    a.append(dict(op='ver', i=2, n=n, ci=0, v=v))
                    a += [dict(op='eval', i=2, x=x) for x in range(1, len(m['xs']) + 1)]
                if len(m['versions'][n]) > 1:
                    a.append(dict(op='ver', i=2, n=n, ci=0, v=0))
        a.append(dict(op='info', i=1))
        for op in w:
            a.append(dict(op, i=1))
            # values belong to the settings at the time of the call: telemetry is read before settings change again
            a.append(dict(op='info', i=1)) if op['op'] not in ('ver', ) else None
            if op['op'] == 'ver':
                a.append(dict(op='upd', i=1, x=1))
        acts.append(a)
    judge(ctx, mods, acts, ['telemetry', 'inputs'])


# ------------------------------------------------------------------ C16
def selection(ctx):
    rng = ctx.rng
    mods = [m for m in modules(rng, stateful=False) if m['sels']]
    walks = explore(ctx, mods, ('upd', 'info'), 200 if ctx.thorough else 60, 12)
    names = vt.run_jobs(ctx, 'session', 'run', [(m, [new(m, 1)]) for m in mods])
    acts = []
    for m, w, ns in zip(mods, walks, names):
        full = ns[0].get('names', [])
        bare = dict(m, track=[])
        a = [new(bare, 1)] + [dict(op='eval', i=1, x=x) for x in range(1, len(m['xs']) + 1)]
        j = 2
        for s in m['sels'] + [rng.sample(full, min(len(full), 2))]:
            a.append(new(bare, j, sel=s))
            a += on_inst(w, j)
            a.append(new(bare, j + 1, on={n: False for n in full if n not in s}))
            a += [dict(op, i=j + 1) for op in w if op['op'] == 'filter']
            j += 2
        for s in (['nothing'], ['REL_VEL', 'rel_vel_']):
            a.append(new(bare, j, sel=s))
            j += 1
        acts.append(a)
    judge(ctx, mods, acts, ['selection', 'decision', 'telemetry'])


# ------------------------------------------------------------------ C17
def jit_pairs(ctx):
    rng = ctx.rng
    mods = [dict(m, tol=max(60, 2 * m['tol'])) for m in modules(rng, stateful=True) if m['track']]
    walks = explore(ctx, mods, ('ver', 'con', 'reset', 'upd', 'info'), 220 if ctx.thorough else 60, 8)
    acts = []
    for m, w in zip(mods, walks):
        vs = [None, dict(jit_enable=False)]
        keys = m['jits']
        if keys:
            vs += [dict(jit_compile_dict={k: False for k in keys}), dict(jit_compile_dict={k: True for k in keys})]
        slow = m['mod'].startswith('insp') or m['mod'].endswith('ia')
        a = []
        for j, v in enumerate(vs):
            a.append(new(m, j + 1, jit=v))
            a += on_inst(w[:25] if slow and not ctx.thorough else w, j + 1)
        acts.append(a)
    judge(ctx, mods, acts, ['decision', 'telemetry'])


# ------------------------------------------------------------------ C24
def functional(ctx):
    rng = ctx.rng
    mods = [dict(m, other={'int': dict(m=2.), 'doc': dict(m=8., n=.02, v0=.4), 'ins': dict(m=8., v0=.4, fov=.7, chief_radius=7.), 'com': dict(deputy_rta=None)}[m['name'][:3]]) for m in modules(rng, 7, stateful=False)]
    for m in mods:
        if m['mod'] == 'combined':
            m['other'] = {}
    walks = explore(ctx, mods, ('upd', 'info'), 300 if ctx.thorough else 80, 20)
    acts = []
    for m, w in zip(mods, walks):
        fs = [op for op in w if op['op'] == 'filter']
        a = [new(m, 1)] + [dict(op, i=1) for op in fs[:12]] + [new(m, 2, var=2, kw=m['other'])]
        # an instance whose parameters are changed in place, next to one that keeps its own
        a.append(dict(new(m, 5, {n: 1 for n in m['track'] if len(m['versions'][n]) > 1}, {n: False for n in m['track'][:1]}, route='pre'), tweak=m['mod'] == 'combined', var=3))
        a += [dict(op, i=5) for op in fs[:12]]
        for op in w:
            a.append(dict(op, i=1))
            if rng.random() < .7:
                a.append(dict(rng.choice(w), i=2))
        a += [new(m, 3), new(m, 4, var=2, kw=m['other'])]
        sh = [op for op in w if op['op'] == 'filter']
        rng.shuffle(sh)
        a += [dict(op, i=rng.choice((3, 3, 4, 1))) for op in sh]
        acts.append(a)
    judge(ctx, mods, acts, ['decision'])
    # a state without sun angle in between (the drift is part of the observation)
    jobs = [(dict(m, xs=m['xs'][:1] + [m['xs'][0][:-2 if m['mod'] == 'insp1_ea' else -1]], eps=0, lo=[[]] * 99, hi=[[]] * 99), 0) for m in mods if m['mod'] in ('insp1_ea', 'inspn_ea') and 'hocbf' not in m['name']]
    res = vt.run_jobs(ctx, 'session', 'short', jobs)
    slim = [{k: m[k] for k in ('name', 'free', 'tol', 'eps', 'lo', 'hi', 'loose')} for m, _ in jobs]
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    vt.validate(ctx, 'TraceSession', {'cfgs': slim, 'traces': traces, 'judge': ['decision']},
                lambda t, l, cl: dict(module=slim[t]['name'], events=traces[t]['ev'], site='inspection-short-state' if l == 3 and cl == ['decision'] else None))


# ------------------------------------------------------------------ C13, C05
def cascades(ctx):
    """cascades of ready-made stages against their stages used one after the other"""
    rng = ctx.rng
    P2, P3 = params(2), params(3, vlim=[U] * 3)
    base = dict(m=12, n=.001027, lim2=int(20 * 2 * 4096), steps=500, K1=[[0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 2, 0], [0, 0, 0, 1, 1, 0]], K2=[[0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 1, 0], [0] * 6])
    def dock_xs():
        # on both sides of the tightest limits used below
        out = dock_states(rng, P2, 6)
        for k in range(4):
            x = [R(a * 60) for a in unit(rng, 2)]
            out.append(x + [R(rng.choice([-1, 1]) * v) for v in rng.sample([.02, .09, .14, .2, .3], 2)])
        return out
    cs = []
    for k in range(10 if ctx.thorough else 4):
        st = [['dock2_ea', dict(v0=.35)], ['dock2_es', dict(x_vel_limit=.15)], ['dock2_ia', {}], ['dock2_is', dict(latch_time=2.)], ['dock2_ea', dict(y_vel_limit=.1, control_bounds_high=.5, control_bounds_low=-.5)]]
        b = rng.choice([None, .4, [.3, .8]])
        cs.append(dict(name=f'dock_{k}', stages=rng.sample(st, rng.randint(1, 3)), bound=b, xs=dock_xs(), ds=ctl(rng, 2, 5), base=None, kind='generic'))
    xs = [insp_state(rng, P3, 1) + [sun(rng), R(w)] for w in (1, 19.9, 25, 3, 0, 2)]
    cs.append(dict(name='inspection', stages=[['insp1_ea', {}], ['deltav', {}]], bound=None, xs=xs, ds=ctl(rng, 3, 5), base=base, kind='inspection'))
    cs.append(dict(name='inspection_bounded', stages=[['insp1_ea', {}], ['deltav', {}]], bound=[.3, .8, .5], xs=xs, ds=ctl(rng, 3, 5), base=base, kind='inspection'))
    mods = [dict(name=c['name'], track=[], xs=c['xs'], ds=c['ds']) for c in cs]
    walks = explore(ctx, mods, ('reset', 'on', 'off'), 400 if ctx.thorough else 80, 16)
    res = vt.run_jobs(ctx, 'session', 'chain', list(zip(cs, walks)))
    slim = []
    for c in cs:
        D = len(c['ds'][0])
        b = c['bound']
        hi = [[]] * D if b is None else [[R(v)] for v in (b if isinstance(b, list) else [b] * D)]
        slim.append(dict(name=c['name'], free=False, tol=5, eps=0, loose=False, hi=hi, lo=[[-v[0]] if v else [] for v in hi]))
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    vt.validate(ctx, 'TraceSession', {'cfgs': slim, 'traces': traces, 'judge': ['chain', 'passthrough']},
                lambda t, l, cl: dict(cascade=cs[t]['name'], stages=cs[t]['stages'], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 4):l]))


def loops(ctx):
    """the ready-made integrator switching modules in closed loop (their braking backup keeps the stopping-distance set invariant)"""
    rng = ctx.rng
    cs = []
    for k in range(24 if ctx.thorough else 8):
        kind = 'es' if k % 2 else 'is'
        P = params(1, m=U, n6=0, euler=False)
        runs = []
        for _ in range(40 if ctx.thorough else 12):
            v = rng.uniform(0, 3)
            x = [-(v * v / 2 + rng.choice([.001, .05, .5, 3])), v]
            mode = rng.choice(['push', 'random', 'switch'])
            n = rng.choice([15, 40])
            d = [1. if mode == 'push' else rng.uniform(-1, 1) if mode == 'random' else rng.choice([1., 5., -1., 1.]) for _ in range(n)]
            runs.append([[R(a) for a in x], [R(a) for a in d]])
        cs.append(dict(name=f'loop_{kind}_{k}', fam='int', kind=kind, P=P, kw=['integration_method'] + (['backup_window'] if kind == 'is' else []), lo=-U, hi=U, window=10 * U, ops=[], runs=runs, dt=R(rng.choice([.1, .25, .5, 1.])), latch=rng.choice([0, 0, R(.6), 2 * U])))
    res = vt.run_jobs(ctx, 'zoo', 'run_loop', cs)
    traces = [{'c': i + 1, 'ev': e} for i, es in enumerate(res) for e in es]
    slim = [dict(c, runs=[]) for c in cs]
    vt.validate(ctx, 'TraceCwh', {'cfgs': slim, 'traces': traces}, lambda t, l, cl: dict(cfg=slim[traces[t]['c'] - 1], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 4):l]))
