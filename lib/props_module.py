"""Properties that hold for every module kind: bounds, enable switch, reset, live settings, telemetry, selection,
compilation, history independence."""
import copy

import cfgs as C
import core
import vt
from props_switch import ONE, DBL, TWO, rand_bk, rand_bounds
from props_opt import curved, ea_rand

ALL = ('es', 'is', 'ea', 'ia', 'da')


def small(kind, name=None, two=False, **kw):
    """a compact configuration of each kind in which some of the calls intervene and some do not"""
    tol = 60 if kind == 'da' else 3
    args = dict(low=[-2], high=[3], win=2000, bk=C.lin([[-1]], [0]), tol=tol)
    cons = [C.con('max', 1, 3, a=(0, 1)), C.con('min', 1, -3, a=(0, 2))]
    plant = ONE
    if two:
        plant = TWO
        args.update(low=[-2, -1], high=[3, 2], bk=C.lin([[-1, 0], [0, -1]], [0, 0]))
        cons = [C.con('max', 1, 3), C.con('lin', 1, 4, w=[1, -1], name='mix')]
    args.update(kw)
    cons = args.pop('cons', cons)
    return C.cfg(name or f'{kind}_small', kind, *plant, cons, **args)


# ------------------------------------------------------------------ C01
def c01(ctx):
    rng = ctx.rng
    out = []
    only = dict(only=['bounds'])
    for kind in ALL:
        for form, low, high in (('scalar', [-1], [1]), ('int', [-2], [1]), ('list', [-1], [2]), ('array', [0], [1]), ('list', [-1], []), ('scalar', [], [1]), ('scalar', [0], [2]), ('int', [-2], [0]), ('jnp', [-1], [1]), ('scalar', [], [0]), ('scalar', [0], []),
                                ('scalar', [-3], [-1]), ('list', [1], [3]), ('array', [], [-2]), ('int', [2], [])):
            # backup controllers and desired controls far outside the bounds
            out.append(small(kind, f'{kind}_{form}_{low}_{high}', low=low, high=high, bform=form, bk=C.lin([[-3]], [0]) if kind != 'ia' else C.lin([[0]], [-1]),
                             ops=C.filts(C.grid((-4, -1, 0, 2, 3, 5)), C.grid((-9, -1, 0, 4))), **only))
        out.append(small(kind, f'{kind}_two_elem', two=True, low=[-2, 0], high=[1, 3], ops=C.filts(C.grid((-1, 2, 4), (-2, 3)), C.grid((-9, 0, 8), (-7, 5))), **only))
        out.append(small(kind, f'{kind}_two_sides', two=True, low=[-4, 1], high=[-1, 3], ops=C.filts(C.grid((-1, 2, 9), (-9, 3)), C.grid((-9, 0, 8), (-7, 5))), **only))
    for kind in ('es', 'is'):
        out.append(small(kind, f'{kind}_latched', latch=2000, low=[-1], high=[1], bk=C.pat([[-5], [4], [0], [9]], 1, 1, mod=5), ops=C.filts(C.grid((0, 3, 5)), C.grid((-4, 0, 4))) + [C.RESET, C.enable(False), C.enable(True)], **only))
    for k in range(30 if ctx.thorough else 6):
        c = ea_rand(rng, k)
        c['only'] = ['bounds']
        c['kind'] = rng.choice(['ea', 'da'])
        out.append(c)
    # a fraction of a unit beyond the bound is beyond the bound
    out += C.rescaled([c for c in out if c['kind'] in ('es', 'is', 'ea')], rng, 40 if ctx.thorough else 12, units=(-8, -12))
    core.replay(ctx, out)
    import props_cascade
    import props_zoo
    props_cascade.bounded(ctx)
    props_zoo.bounds(ctx)


# ------------------------------------------------------------------ C02
def c02(ctx):
    out = []
    fs = C.filts(C.grid((-1, 2, 3)), C.grid((-5, 0, 4)))
    base = fs + [C.enable(False), C.enable(True)]
    for kind in ALL:
        out.append(small(kind, f'off_{kind}', ops=base + [C.RESET]))
        out.append(small(kind, f'off2_{kind}', two=True, ops=C.filts(C.grid((-1, 3), (0, 2)), C.grid((-4, 5), (-3, 4))) + [C.enable(False), C.enable(True)]))
    for kind in ('es', 'is'):
        out.append(small(kind, f'off_latch_{kind}', latch=2000, ops=base + [C.RESET]))
        out.append(small(kind, f'off_mem_{kind}', latch=0, bk=C.pat([[-1], [-2], [0]], 1, 1, mod=4), ops=base))
        out.append(small(kind, f'off_latchmem_{kind}', latch=1000, bk=C.acc([[-1]], [-1], 3, mem='dict'), ops=base))
    out.append(small('ea', 'off_inf', low=[-1], high=[1], exc=True, ops=C.filts(C.grid((-6, 0, 6)), C.grid((-5, 0, 4))) + [C.enable(False), C.enable(True)]))
    core.replay(ctx, out, extra_random=1500 if ctx.thorough else 150, info_rate=0.05)
    import props_zoo
    props_zoo.disabled_pairs(ctx)


# ------------------------------------------------------------------ C07
def c07(ctx):
    out = []
    fs = C.filts(C.grid((-1, 2, 3, 5)), C.grid((-5, 0, 4)))
    base = fs + [C.RESET, C.enable(False), C.enable(True), C.update([1])]
    for kind in ALL:
        out.append(small(kind, f'rst_{kind}', ops=base))
        out.append(small(kind, f'rst_lim_{kind}', ops=C.filts(C.grid((-1, 2, 3)), C.grid((-5, 4))) + [C.RESET, C.setlim(1, 2), C.setlim(1, 3), C.setcon(2, False), C.setcon(2, True)]))
    for kind in ('es', 'is'):
        for mem in ('arr', 'dict', 'inplace', 'grow', 'many'):
            out.append(small(kind, f'rst_{kind}_{mem}', latch=1000, bk=C.pat([[-1], [-2], [0]], 1, 1, mod=4, cs0=1, mem=mem), ops=base))
        out.append(small(kind, f'rst_long_{kind}', latch=3000, bk=C.acc([[-1]], [-1], 3), ops=base))
    out.append(small('ia', 'rst_mem_ia', bk=C.pat([[-1], [-2], [0]], 1, 1, mod=4, cs0=1), ops=base))
    for exc in (False, True):
        out.append(small('ea', f'rst_inf{exc}', low=[-1], high=[1], exc=exc, ops=C.filts(C.grid((-6, 0, 6)), C.grid((-5, 0, 4))) + [C.RESET]))
    core.replay(ctx, out, extra_random=1500 if ctx.thorough else 150, info_rate=0.15)
    import props_zoo
    props_zoo.reset_pairs(ctx)
    import props_deltav
    props_deltav.run(ctx, props_deltav.few(ctx.rng))


# ------------------------------------------------------------------ C11
def c11(ctx):
    out = []
    xs, ds = C.grid((-2, 1, 3)), C.grid((-4, 0, 4))
    for kind in ALL:
        for jit in (True, False):
            ops = C.filts(xs, ds) + [C.setlim(1, 2), C.setlim(1, 3), C.setlim(1, 0), C.setlim(2, -1), C.setlim(2, -3), C.setcon(1, False), C.setcon(1, True), C.setcon(2, False), C.setcon(2, True)]
            out.append(small(kind, f'live_{kind}_{jit}', jit=jit, ops=ops, low=[-5], high=[5], bk=C.lin([[-1]], [0]) if kind != 'ia' else C.lin([[0]], [0])))
        # the only constraint there is
        out.append(small(kind, f'live_one_{kind}', cons=[C.con('max', 1, 3)], jit=kind != 'es', ops=C.filts(xs, ds) + [C.setcon(1, False), C.setcon(1, True), C.setlim(1, 2), C.setlim(1, 3)]))
        # a constraint that starts disabled and would make every step infeasible / unsafe
        out.append(small(kind, f'live_off_{kind}', cons=[C.con('max', 1, 3), C.con('lin', 1, -50, w=[1], name='never', en=False)], ops=C.filts(xs, ds) + [C.setcon(2, True), C.setcon(2, False)], exc=False))
    for kind in ('ea', 'ia'):
        for jit in (True, False):
            out.append(small(kind, f'live_dir_{kind}_{jit}', jit=jit, direct=[C.direct('cap', [-1], -2), C.direct('flo', [1], -1, en=False)], low=[-5], high=[5],
                             ops=C.filts(xs, ds) + [C.setdlim(1, -1), C.setdlim(1, -2), C.setdcon(1, False), C.setdcon(1, True), C.setdcon(2, True), C.setdcon(2, False), C.setdlim(2, 2), C.setdlim(2, -1), C.setlim(1, 2), C.setlim(1, 3)]))
    for kind in ('es', 'is'):
        out.append(small(kind, f'live_latch_{kind}', latch=1000, ops=C.filts(xs, ds) + [C.setlim(1, 1), C.setlim(1, 3), C.setcon(1, False), C.setcon(1, True)]))
    # parameters that reach gradients and weights
    for kind in ALL:
        out += [c for c in curved(kind) if ctx.thorough or c['name'].endswith(('_q', '_d', '_ho1'))]
    core.replay(ctx, out, extra_random=2000 if ctx.thorough else 200)
    import props_zoo
    props_zoo.live_params(ctx)


# ------------------------------------------------------------------ C12
def c12(ctx):
    out = []
    for kind in ALL:
        cons = [C.con('max', 1, 3, bias=-1), C.con('min', 1, -3), C.con('mag', 1, 4, name='mag', en=False) if kind not in ('ia', 'da') else C.con('lin', 1, 4, w=[2], name='lin', en=False)]
        ops = C.filts(C.grid((-2, 1, 3)), C.grid((-4, 0, 4))) + [C.INFO, C.update([2]), C.update([-3]), C.enable(False), C.enable(True), C.RESET, C.setlim(1, 2), C.setlim(1, 3)]
        for jit in (True, False):
            out.append(small(kind, f'tel_{kind}_{jit}', cons=cons, jit=jit, ops=ops))
    for kind in ('es', 'is'):
        out.append(small(kind, f'tel_latch_{kind}', latch=2000, ops=C.filts(C.grid((-2, 3)), C.grid((-4, 4))) + [C.INFO, C.update([2]), C.enable(False), C.enable(True), C.RESET]))
    for exc in (False, True):
        out.append(small('ea', f'tel_inf{exc}', low=[-1], high=[1], exc=exc, ops=C.filts(C.grid((-6, 0, 6)), C.grid((-5, 0, 4))) + [C.INFO, C.RESET, C.update([1])]))
    out += [c for kind in ALL for c in curved(kind) if c['name'].endswith('_ho1')]
    core.replay(ctx, out, info_rate=0.6, extra_random=1500 if ctx.thorough else 150)
    import props_zoo
    props_zoo.telemetry(ctx)


# ------------------------------------------------------------------ C16
def c16(ctx):
    out = []
    three = [C.con('max', 1, 3, name='top'), C.con('min', 1, -2, name='bottom'), C.con('max', 1, 1, name='tight', bias=1)]
    uses = [None, ['top'], ['bottom', 'top'], ['tight', 'bottom'], ['tight', 'nothing', 'top', 'bottom'], ['top', 'top']]
    for kind in ALL:
        for k, u in enumerate(uses):
            c = small(kind, f'use_{kind}_{k}', cons=three, use=u, ops=C.filts(C.grid((-2, 1, 3)), C.grid((-4, 0, 4))) + [C.INFO, C.RESET])
            out.append(c)
        out.append(small(kind, f'use_slice_{kind}', cons=three + [C.con('lin', 1, 2, w=[-1], name='extra')], use=['extra', 'tight'], ops=C.filts(C.grid((-2, 1, 3)), C.grid((-4, 0, 4))) + [C.INFO, C.setcon(1, False), C.setcon(1, True), C.setlim(2, 0), C.setlim(2, 2)]))
        # names that contain each other, differ in case or in a suffix
        like = [C.con('max', 1, 3, name='lim'), C.con('min', 1, -2, name='lim_low'), C.con('max', 1, 1, name='LIM'), C.con('max', 1, 2, bias=-1, name='my_lim')]
        for k, u in enumerate((['lim'], ['LIM', 'li', 'lim_'], ['lim_low', 'm'], ['my_lim', 'lim_lower'])):
            out.append(small(kind, f'use_like_{kind}_{k}', cons=like, use=u, ops=C.filts(C.grid((-2, 1, 2)), C.grid((-4, 4))) + [C.INFO]))
    # softened constraints: only the selected ones have slack
    soft = [C.con('max', 1, 3, name='top', slack=1), C.con('min', 1, 2, name='up', slack=2), C.con('max', 1, 1, name='hard')]
    for kind, tol in (('ea', 400), ('ia', 400), ('da', 300)):
        for k, u in enumerate((['up', 'hard'], ['hard', 'top'], ['up', 'top'], ['hard'])):
            out.append(small(kind, f'use_soft_{kind}_{k}', cons=soft, use=u, tol=tol, bk=C.lin([[0]], [0]), low=[-3], high=[3], ops=C.filts(C.grid((-2, 1, 2, 4)), C.grid((-2, 2))) + [C.INFO]))
    core.replay(ctx, out, info_rate=0.2)
    # lists that name nothing are rejected at construction
    bad = [small(kind, f'use_none_{kind}_{k}', cons=three, use=u) for kind in ALL for k, u in enumerate((['nothing'], [], ['TOP', 'x_vel'], ['to', 'topmost', 'p', '']))]
    res = vt.run_jobs(ctx, 'toys', 'run_walk', [(c, [], 0) for c in bad])
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    vt.validate(ctx, 'TraceModule', {'cfgs': bad, 'traces': traces}, lambda t, l, cl: dict(config=bad[t]['name'], cfg=bad[t], event=traces[t]['ev'][l]))
    import props_zoo
    props_zoo.selection(ctx)


# ------------------------------------------------------------------ C17
JIT_KEYS = {
    'es': ['constraint_violation', 'pred_state'], 'is': ['constraint_violation', 'pred_state', 'integrate'],
    'ea': ['generate_barrier_constraint_mats', 'update_ineq_mats'], 'ia': ['jacobian', 'generate_ineq_constraint_mats', 'pred_state', 'integrate', 'update_ineq_mats'],
    'da': []
}


def c17(ctx):
    out = []
    for kind in ALL:
        ops = C.filts(C.grid((-2, 1, 3)), C.grid((-4, 0, 4)), hs=(1, 2)) + [C.setlim(1, 2), C.setlim(1, 3), C.setcon(2, False), C.setcon(2, True), C.RESET, C.INFO, C.update([1])]
        cons = [C.con('max', 1, 3, a=(0, 1)), C.con('min', 1, -3, a=(0, 2))]
        if kind == 'ia':
            cons = [C.con('max', 1, 3, nca=1, skip=2, kl=True), C.con('min', 1, -3, least=2)]
        variants = [(True, {}), (False, {})]
        keys = JIT_KEYS[kind]
        for k in keys:
            variants += [(True, {k: True}), (True, {k: False})]
        if keys:
            variants += [(True, {k: True for k in keys}), (True, {k: False for k in keys}), (False, {k: True for k in keys})]
        # several axes, biases, negative-side settings, per-axis bounds, selection, latching
        rich = [C.con('max', 1, 3, bias=-1, name='r1', a=(0, 2)), C.con('lin', 1, 4, w=[1, -1], name='r2', bias=1), C.con('min', 2, -2, name='r3', bias=-1, an=() if kind in ('ia', 'da') else (0, 3), bn100=0 if kind in ('ia', 'da') else -100), C.con('max', 2, 0, name='out')]
        if kind in ('es', 'is', 'ea'):
            rich.append(C.con('mag', 2, 3, name='r4', bias=1))
        if kind == 'ia':
            rich = [dict(q, sub=C.sub(**s)) for q, s in zip(rich, ({}, dict(least=1, kf=True), dict(skip=2, kl=True), {}))]
        rops = C.filts([(0, 0), (2, -1), (3, 2), (-1, -2)], [(-4, 3), (0, 0), (4, -3), (1, 5)], hs=(1, 2)) + [C.setlim(1, 1), C.setlim(1, 3), C.setcon(2, False), C.setcon(2, True), C.RESET, C.INFO, C.update([1, 2])]
        for i, (j, d) in enumerate(variants):
            out.append(small(kind, f'jitr_{kind}_{i}', two=True, cons=rich, use=['r1', 'r2', 'r3', 'r4'], ts=-4, jit=j, jitd=d, ops=rops + ([C.setdcon(1, False), C.setdcon(1, True)] if kind in ('ea', 'ia') else []), low=[-4, -2], high=[3, 5], bform='array', latch=2000 if kind in ('es', 'is') else 0,
                             direct=[C.direct('cap', [-1, 1], -5)] if kind in ('ea', 'ia') else [], bk=C.lin([[0, 0], [0, 0]], [-1, 1]) if kind == 'ia' else C.lin([[-1, 0], [1, -1]], [0, -1])))
        for i, (j, d) in enumerate(variants[:2] + variants[-3:-1]):
            out.append(small(kind, f'jit_{kind}_{i}', cons=cons, jit=j, jitd=d, ops=ops, low=[-4], high=[4], direct=[C.direct('cap', [-1], -3)] if kind in ('ea', 'ia') else [],
                             bk=C.lin([[0]], [-1]) if kind == 'ia' else C.lin([[-1]], [0])))
    for kind in ALL:
        for c in curved(kind):
            if c['name'].endswith(('_qb', '_d', '_ho1') if kind in ('ea', 'ia') else ('_qb', '_ho0')):
                out += [dict(c, name=f"{c['name']}_{j}", jit=j) for j in (True, False)]
    core.replay(ctx, out, info_rate=0.1, limit=None if ctx.thorough else 200)
    import props_zoo
    props_zoo.jit_pairs(ctx)


# ------------------------------------------------------------------ C24
def c24(ctx):
    rng = ctx.rng
    out = []
    for kind in ALL:
        ops = C.filts(C.grid((-2, 0, 1, 3)), C.grid((-4, 0, 4)), hs=(1, 2)) + [C.setlim(1, 2), C.setlim(1, 3)]
        out.append(small(kind, f'hist_{kind}', ops=ops))
        out.append(small(kind, f'hist_inf_{kind}', low=[-1], high=[1], ops=C.filts(C.grid((-6, -2, 0, 3, 6)), C.grid((-4, 0, 4)))))
        # the same class with other settings: bounds, window, backup, epsilon, parameters, biases, strengtheners, selection
        two = [C.con('max', 1, 3, name='top', a=(0, 1)), C.con('min', 1, -3, name='low', a=(0, 2))]
        both = C.filts(C.grid((-2, 0, 1, 3)), C.grid((-9, -4, 0, 4, 9)))
        bk = C.lin([[0]], [0]) if kind == 'ia' else C.lin([[-1]], [0])
        out.append(small(kind, f'var_{kind}_1', cons=two, low=[-1], high=[1], bk=bk, ops=both))
        out.append(small(kind, f'var_{kind}_2', cons=two, low=[-9], high=[9], bform='array', bk=C.lin([[0]], [-1]), win=1000, eps=20000, ops=both))
        out.append(small(kind, f'var_{kind}_3', cons=[dict(two[0], lim=1, bias=-1), dict(two[1], lim=-1, a=[0, 1])], low=[], high=[3], bk=bk, win=3000, ops=both))
        out.append(small(kind, f'var_{kind}_4', cons=two, use=['low'], low=[-5], high=[], bk=bk, exc=True, ops=both, jit=False))
        # a failed solution leaves nothing behind, reported or raised
        out.append(small(kind, f'hist_exc_{kind}', low=[-1], high=[1], exc=True, ops=C.filts(C.grid((-6, -2, 0, 3, 6)), C.grid((-4, 0, 4)))))
    # the same class with other priorities
    soft = []
    for kind in ('ea', 'da'):
        for a, b in ((1, 2), (2, 1)):
            soft.append(len(out))
            out.append(small(kind, f'soft_{kind}_{a}{b}', cons=[C.con('max', 1, 1, slack=a), C.con('min', 1, 2, slack=b, name='up')], low=[-3], high=[3], tol=400, eps=5000, ops=C.filts(C.grid(range(-2, 6)), C.grid((-3, 0, 2)))))
    core.replay(ctx, out, extra_random=3000 if ctx.thorough else 400)
    # several instances of one class, driven alternately: each one's trace must be explainable on its own
    graphs, inits = vt.explore(ctx, out)
    jobs = []
    groups = []
    for kind in ALL:
        mine = [i for i, c in enumerate(out) if c['kind'] == kind and i not in soft]
        groups += [mine[:2] * 2, mine[2:], mine[3:] + mine[2:3], [mine[5], mine[2], mine[5], mine[3]]]
    groups += [soft[:2] * 2, soft[2:] * 2]
    for gr in groups:
        walks = [[out[i]['ops'][k] for k in vt.random_walk(graphs[i], inits[i], rng, 400 if ctx.thorough else 45)] for i in gr]
        jobs.append(([out[i] for i in gr], walks, rng.randint(0, 99)))
    res = vt.run_jobs(ctx, 'toys', 'run_pair', jobs)
    traces = [{'c': i + 1, 'ev': e} for gr, r in zip(groups, res) for i, e in zip(gr, r)]
    slim = [dict(c, ops=[]) for c in out]
    vt.validate(ctx, 'TraceModule', {'cfgs': slim, 'traces': traces},
                lambda t, l, cl: dict(config=slim[traces[t]['c'] - 1]['name'] + ' (interleaved instances)', event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 5):l]))
    import props_zoo
    props_zoo.functional(ctx)
