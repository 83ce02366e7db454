"""Switching properties."""
import cfgs as C
import core
import vt

ONE = ([[0]], [[1]])
DBL = ([[0, 1], [0, 0]], [[0], [1]])
TWO = ([[0, 0], [0, 0]], [[1, 0], [0, 1]])


def rand_bounds(rng, m, p=.7, hi=2):
    low = [-rng.randint(0, hi) for _ in range(m)] if rng.random() < p else []
    high = [rng.randint(0, hi) for _ in range(m)] if rng.random() < p else []
    return low, high


def rand_bk(rng, nx, m, stateful=False):
    K = [[rng.randint(-1, 1) for _ in range(nx)] for _ in range(m)]
    if not stateful:
        return C.lin(K, [rng.randint(-3, 3) for _ in range(m)])
    mem = rng.choice(['arr', 'dict', 'inplace', 'grow', 'many'])
    if rng.random() < .5:
        k = rng.randint(2, 4)
        return C.pat([[rng.randint(-3, 3) for _ in range(m)] for _ in range(k)], nx, m, mod=rng.choice([k, k + 1]), cs0=rng.randint(0, 1), mem=mem)
    return C.acc(K, [rng.choice([-1, 1]) for _ in range(m)], rng.randint(2, 4), cs0=rng.randint(0, 1), mem=mem)


def es_configs(ctx, n):
    out = []
    # hand-picked: boundary values, bias, per-axis bounds, one-sided bounds, disabled constraints, decimal step sizes
    out.append(C.cfg('es_box', 'es', *ONE, [C.con('max', 1, 2, bias=-1), C.con('min', 1, -2)], low=[-2], high=[2], bform='scalar', bk=C.lin([[-1]], [0]),
                     ops=C.filts(C.grid(range(-3, 4)), C.grid(range(-3, 4)), hs=(1, 2))))
    out.append(C.cfg('es_dbl', 'es', *DBL, [C.con('mag', 1, 2), C.con('mag', 2, 2, bias=1), C.con('lin', 1, 3, w=[-1, -1], name='mix')], low=[-1], high=[2],
                     bk=C.lin([[0, -2]], [0]), ops=C.filts(C.grid(range(-2, 3), range(-2, 3)), C.grid((-3, -1, 0, 1, 3)))))
    out.append(C.cfg('es_two', 'es', *TWO, [C.con('max', 1, 1), C.con('max', 2, 1, bias=-1), C.con('lin', 1, 2, w=[1, 1])],
                     low=[-2, -1], high=[1, 3], bform='array', bk=C.lin([[-1, 1], [0, -1]], [1, -2]),
                     ops=C.filts(C.grid((-1, 0, 1), (-1, 0, 1)), C.grid((-3, 0, 2), (-2, 1, 4)))))
    out.append(C.cfg('es_onesided', 'es', *ONE, [C.con('max', 1, 1)], high=[1], bform='int', bk=C.lin([[0]], [5]),
                     ops=C.filts(C.grid(range(-3, 3)), C.grid((-4, -1, 0, 1, 3)))))
    out.append(C.cfg('es_lowonly_nojit', 'es', *ONE, [C.con('min', 1, -1)], low=[-1], bform='scalar', jit=False, bk=C.lin([[0]], [-7]),
                     ops=C.filts(C.grid(range(-2, 3)), C.grid((-4, -1, 0, 2)))))
    out.append(C.cfg('es_dt', 'es', *ONE, [C.con('max', 1, 2)], mode='dt', bk=C.lin([[-1]], [0]),
                     ops=C.filts(C.grid(range(-1, 4)), C.grid((-1, 0, 1, 2)), dtms=(100, 250, 1000))))
    # many constraints: each of them must be able to trip on its own
    many = [C.con('max', i, 1, name=f'hi{i}') for i in (1, 2, 3)] + [C.con('min', i, -1, name=f'lo{i}') for i in (1, 2, 3)]
    out.append(C.cfg('es_many', 'es', [[0] * 3] * 3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], many, bk=C.lin([[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [0, 0, 0]),
                     ops=C.filts([(0, 0, 0), (1, -1, 1)], C.grid((-2, 0, 2), (-2, 0, 2), (-2, 0, 2)))))
    out += C.rescaled(out, ctx.rng, 7, units=(-8, -20)) + C.retimed(out, ctx.rng, 6)
    for k in range(n):
        rng = ctx.rng
        nx, m = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1), (3, 2)])
        A, B, c = C.rand_plant(rng, nx, m)
        cons = [C.rand_con(rng, nx, i) for i in range(rng.randint(1, 3))]
        for q in cons:
            if rng.random() < .15:
                q['en'] = False
        low, high = rand_bounds(rng, m)
        xs = C.some(rng, C.grid(*[range(-2, 3)] * nx), 20)
        ds = C.some(rng, C.grid(*[range(-3, 4)] * m), 8)
        out.append(C.cfg(f'es_r{k}', 'es', A, B, cons, c=c, low=low, high=high, bform=rng.choice(['list', 'array', 'scalar']), bk=rand_bk(rng, nx, m),
                         jit=rng.random() < .8, sc=rng.choice([0, 0, 0, -12, 6]), ops=C.filts(xs, ds, hs=(1, 2))))
    return out


def c03(ctx):
    from props_opt import curved
    core.replay(ctx, es_configs(ctx, 60 if ctx.thorough else 10) + curved('es'))


def is_configs(ctx, n):
    out = []
    rng = ctx.rng
    # braking double integrator: the window decides; violations only at the last step / only in the middle
    for win in (0, 2000, 3000):
        out.append(C.cfg(f'is_brake{win}', 'is', *DBL, [C.con('max', 1, 4), C.con('min', 1, -4)], low=[-1], high=[1], bform='scalar', win=win, bk=C.lin([[0, -1]], [0]),
                         ops=C.filts(C.grid(range(-2, 5), (-2, 0, 1, 2, 3)), C.grid((-2, 0, 1)), hs=(1, 2))))
    # a trajectory that leaves the safe set and comes back: only intermediate points are unsafe
    out.append(C.cfg('is_bump', 'is', *ONE, [C.con('max', 1, 3)], win=4000, bk=C.pat([[1], [1], [-2], [-1]], 1, 1, mod=5), ops=C.filts(C.grid(range(0, 4)), C.grid((-1, 0, 1))) + [C.RESET]))
    # decimal windows: every step that fits in the window counts, and no more
    for dtm, win in ((100, 300), (100, 700), (250, 1000), (200, 500), (300, 900), (100, 250), (300, 800), (400, 1100), (700, 1000), (300, 250)):
        out.append(C.cfg(f'is_dt{dtm}_{win}', 'is', *ONE, [C.con('max', 1, 5)], mode='dt', win=win, bk=C.lin([[0]], [1]),
                         ops=C.filts(C.grid(range(-4, 6)), C.grid((-1, 0, 1)), dtms=(dtm, ))))
    out.append(C.cfg('is_steps', 'is', *ONE, [C.con('max', 1, 6), C.con('mag', 1, 7)], mode='dt', win=600, bk=C.lin([[0]], [1]),
                     ops=C.filts(C.grid(range(-2, 6)), C.grid((-1, 0, 1)), dtms=(100, 200, 300))))
    # step sizes that change from call to call, with and without a latch
    for latch in (0, 250, 1000):
        out.append(C.cfg(f'is_steps_latch{latch}', 'is', *ONE, [C.con('max', 1, 6), C.con('mag', 1, 7)], mode='dt', win=625, latch=latch, bk=C.lin([[0]], [1]),
                         ops=C.filts(C.grid((-2, 2, 3, 4, 5)), C.grid((-1, 0, 1)), dtms=(125, 250, 500)) + [C.RESET]))
    # a look-ahead that rests, then moves on
    for mem in ('arr', 'dict'):
        for jit in (True, False):
            out.append(C.cfg(f'is_rest_{mem}_{jit}', 'is', *ONE, [C.con('max', 1, 3), C.con('min', 1, -4)], win=4000, bk=C.pat([[0], [0], [1], [0], [-2]], 1, 1, mod=6, mem=mem), jit=jit,
                             ops=C.filts(C.grid((-3, 0, 2, 3)), C.grid((-1, 0, 1))) + [C.RESET]))
    out.append(C.cfg('is_bias_nojit', 'is', *DBL, [C.con('max', 1, 4, bias=-1), C.con('mag', 2, 2, bias=1)], low=[-1], high=[2], win=2000, bk=C.lin([[0, -1]], [0]), jit=False,
                     ops=C.filts(C.grid((0, 2, 3), (-2, 0, 1, 2)), C.grid((-2, 0, 1, 3)))))
    out.append(C.cfg('is_jitd', 'is', *DBL, [C.con('max', 1, 4), C.con('min', 2, -2)], low=[-1], high=[2], win=2000, bk=C.lin([[0, -1]], [0]),
                     jitd={'pred_state': True, 'integrate': True, 'constraint_violation': False},
                     ops=C.filts(C.grid((0, 2, 3), (-2, 0, 1, 2)), C.grid((-2, 0, 1, 3)))))
    out += C.rescaled(out, rng, 4, units=(-8, -20)) + C.retimed(out, rng, 6)
    # long windows: the last step of the window can be the only unsafe one
    for dtm, win, lim in ((125, 2000, 14), (250, 6000, 22), (500, 20000, 38), (125, 12500, 98)):
        out.append(C.cfg(f'is_long{win // dtm}', 'is', *ONE, [C.con('max', 1, lim), C.con('min', 1, -9)], mode='dt', win=win, bk=C.lin([[0]], [1]), jit=win // dtm < 50,
                         ops=C.filts(C.grid((-4, -3, -2, -1, 0)), C.grid((-1, 0, 1)), dtms=(dtm, ))))
    for mem in ('arr', 'dict'):
        out.append(C.cfg(f'is_longpat_{mem}', 'is', *ONE, [C.con('max', 1, 4), C.con('min', 1, -4)], mode='dt', win=3250, bk=C.pat([[0]] * 7 + [[3], [-3], [0], [-4], [2], [0], [1], [2], [-6]], 1, 1, mem=mem, cs0=3 * (mem == 'dict')), jit=mem == 'dict',
                         ops=C.filts(C.grid(range(-4, 5)), C.grid((-1, 0, 1)), dtms=(250, ))))
    out.append(C.cfg('is_longfb', 'is', *DBL, [C.con('max', 1, 9), C.con('min', 1, -12), C.con('max', 2, 9)], mode='dt', win=3000, bk=C.lin([[0, 0]], [-1]), low=[-1], high=[1], ops=C.filts(C.grid((-2, 0, 1), (1, 2, 3, 4)), C.grid((-1, 0, 1)), dtms=(250, ))))
    for k in range(n):
        nx, m = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1)])
        A, B, c = C.rand_plant(rng, nx, m)
        cons = [C.rand_con(rng, nx, i, lims=5) for i in range(rng.randint(1, 3))]
        for q in cons:
            q['lim'] = q['lim'] * 2 if q['t'] != 'mag' else q['lim'] + 2
            if rng.random() < .15:
                q['en'] = False
        low, high = rand_bounds(rng, m, p=.9)
        win = rng.choice([1000, 2000, 3000, 4000])
        bk = rand_bk(rng, nx, m, stateful=rng.random() < .4)
        xs = C.some(rng, C.grid(*[range(-2, 3)] * nx), 14)
        ds = C.some(rng, C.grid(*[range(-3, 4)] * m), 6)
        out.append(C.cfg(f'is_r{k}', 'is', A, B, cons, c=c, low=low, high=high, bform=rng.choice(['list', 'array', 'scalar']), bk=bk, win=win, latch=rng.choice([0, 0, 1000, 2000]),
                         jit=rng.random() < .7, sc=rng.choice([0, 0, 0, -12, 6]), ops=C.filts(xs, ds, hs=(1, ) if win > 2000 else (1, 2)) + [C.RESET]))
    return out


def c04(ctx):
    from props_opt import curved
    core.replay(ctx, is_configs(ctx, 50 if ctx.thorough else 8) + curved('is'))


def c06(ctx):
    rng = ctx.rng
    out = []
    fs = C.filts(C.grid((0, 2, 3)), C.grid((-1, 1)), dtms=(250, 500, 1000))
    base = fs + [C.RESET, C.enable(False), C.enable(True)]
    for latch in (0, 250, 500, 625, 1000, 2000):
        out.append(C.cfg(f'latch{latch}', 'es', *ONE, [C.con('max', 1, 3)], mode='dt', latch=latch, bk=C.lin([[0]], [-2]), low=[-3], high=[3], bform='scalar', ops=base))
    out.append(C.cfg('latch_is', 'is', *DBL, [C.con('max', 1, 4)], mode='dt', latch=1000, win=500, bk=C.lin([[0, -1]], [0]), low=[-1], high=[1],
                     ops=C.filts([(0, 0), (3, 1), (4, 0)], C.grid((-2, 1)), dtms=(250, 500)) + [C.RESET, C.enable(False), C.enable(True)]))
    # backup controls that depend on the whole state of a drifting plant
    for kind in ('es', 'is'):
        out.append(C.cfg(f'latch_drift_{kind}', kind, *DBL, [C.con('max', 1, 4), C.con('max', 2, 2)], mode='dt', latch=1500, win=250, bk=C.lin([[-1, -1]], [0]), low=[-5], high=[5], jit=kind == 'es',
                         ops=C.filts([(0, 0), (3, 1), (4, 2), (1, 2)], C.grid((-2, 1)), dtms=(250, 500)) + [C.RESET]))
    out.append(C.cfg('latch_mem', 'es', *ONE, [C.con('max', 1, 3)], mode='dt', latch=1000, bk=C.pat([[-1], [-2], [0]], 1, 1, mod=4, mem='dict'),
                     ops=C.filts(C.grid((0, 3)), C.grid((-1, 1)), dtms=(500, 1000)) + [C.RESET]))
    out.append(C.cfg('latch_nojit', 'es', *ONE, [C.con('max', 1, 3)], mode='dt', latch=750, jit=False, bk=C.lin([[-1]], [0]),
                     ops=C.filts(C.grid((0, 3)), C.grid((-1, 1)), dtms=(250, 500)) + [C.RESET, C.setcon(1, False), C.setcon(1, True)]))
    for k in range(12 if ctx.thorough else 3):
        kind = rng.choice(['es', 'is'])
        latch = rng.choice([125, 375, 500, 1500, 3000])
        out.append(C.cfg(f'latch_r{k}', kind, *ONE, [C.con('max', 1, 3), C.con('min', 1, -3)], mode='dt', latch=latch, win=rng.choice([0, 500]), bk=rand_bk(rng, 1, 1, stateful=rng.random() < .4), low=[-2], high=[2],
                         ops=C.filts(C.grid((-3, 0, 3)), C.grid((-1, 0, 1)), dtms=rng.sample([125, 250, 375, 500, 1000], 2)) + [C.RESET, C.enable(False), C.enable(True)]))
    out += C.retimed(out, rng, 4)
    core.replay(ctx, out, extra_random=2000 if ctx.thorough else 300)


def c08(ctx):
    rng = ctx.rng
    out = []
    for mem in ('arr', 'dict', 'inplace', 'grow', 'many'):
        out.append(C.cfg(f'mem_es_{mem}', 'es', *ONE, [C.con('max', 1, 3)], bk=C.pat([[-1], [-2], [0], [-3]], 1, 1, mod=6, cs0=1, mem=mem), low=[-2], high=[2], bform='scalar',
                         ops=C.filts(C.grid((0, 2, 3)), C.grid((-1, 0, 2))) + [C.RESET, C.enable(False), C.enable(True)]))
        out.append(C.cfg(f'mem_is_{mem}', 'is', *ONE, [C.con('max', 1, 3), C.con('min', 1, -6)], win=3000, bk=C.pat([[-1], [-2], [1], [-1]], 1, 1, mod=5, mem=mem),
                         ops=C.filts(C.grid((-2, 0, 2, 3)), C.grid((-1, 0, 1))) + [C.RESET, C.enable(False), C.enable(True)]))
        out.append(C.cfg(f'mem_acc_{mem}', 'is', *DBL, [C.con('max', 1, 5), C.con('min', 1, -5)], win=2000, bk=C.acc([[0, -1]], [-1], 3, mem=mem), low=[-2], high=[2],
                         ops=C.filts(C.grid((-2, 0, 2), (-1, 0, 2)), C.grid((-1, 0, 2))) + [C.RESET]))
    # implicit optimization only looks ahead: its controller memory never moves
    for win in (0, 1000, 2000, 4000):
        for mem in ('arr', 'grow'):
            out.append(C.cfg(f'mem_ia{win}_{mem}', 'ia', *ONE, [C.con('max', 1, 4)], win=win, bk=C.pat([[-1], [-2], [2]], 1, 1, mod=4, mem=mem), low=[-3], high=[3],
                             ops=C.filts(C.grid((-2, 0, 2, 4)), C.grid((-2, 0, 3))) + [C.RESET]))
    out.append(C.cfg('mem_gain', 'is', *DBL, [C.con('max', 1, 5), C.con('min', 1, -5)], win=2000, bk=C.gain([[0, -1]], [0], 3), low=[-2], high=[2], ops=C.filts(C.grid((-2, 0, 2), (-1, 0, 2)), C.grid((-1, 0, 2))) + [C.RESET]))
    # long look-aheads
    for kind, mem in (('is', 'arr'), ('is', 'many'), ('ia', 'dict'), ('ia', 'many')):
        out.append(C.cfg(f'mem_long_{kind}_{mem}', kind, *ONE, [C.con('max', 1, 4), C.con('min', 1, -9)], mode='dt', win=3000 if kind == 'is' else 12000, bk=C.pat([[-1], [0], [1], [-1], [0], [1], [0], [2], [-2], [0], [1], [-1], [0], [-2]], 1, 1, mod=14, cs0=1, mem=mem), low=[-3], high=[3],
                         ops=C.filts(C.grid((0, 2, 3, 4)), C.grid((-2, 0, 3)), dtms=(250 if kind == 'is' else 1000, )) + [C.RESET]))
    for k in range(14 if ctx.thorough else 3):
        kind = rng.choice(['es', 'is', 'is'])
        nx, m = rng.choice([(1, 1), (2, 1), (2, 2)])
        A, B, c = C.rand_plant(rng, nx, m)
        cons = [C.rand_con(rng, nx, i, lims=4) for i in range(rng.randint(1, 2))]
        low, high = rand_bounds(rng, m)
        out.append(C.cfg(f'mem_r{k}', kind, A, B, cons, c=c, low=low, high=high, bk=rand_bk(rng, nx, m, stateful=True), win=rng.choice([1000, 2000]), latch=rng.choice([0, 0, 1000]),
                         ops=C.filts(C.some(rng, C.grid(*[range(-2, 3)] * nx), 8), C.some(rng, C.grid(*[range(-2, 3)] * m), 4)) + [C.RESET, C.enable(False), C.enable(True)]))
    out += C.retimed(out, rng, 3)
    core.replay(ctx, out, extra_random=1000 if ctx.thorough else 100)
    controllers(ctx)
    import props_deltav
    props_deltav.run(ctx, props_deltav.few(rng)[1:])


# ------------------------------------------------------------------ the controller object itself
def controllers(ctx):
    rng = ctx.rng
    cs = []
    for mem in ('arr', 'dict', 'inplace', 'grow', 'many'):
        cs.append(dict(name=f'ctl_pat_{mem}', bk=C.pat([[-1], [2], [0], [3]], 1, 1, mod=6, cs0=1, mem=mem), xs=[[0], [2]], low=[], high=[]))
        cs.append(dict(name=f'ctl_acc_{mem}', bk=C.acc([[1]], [2], 4, cs0=0, mem=mem), xs=[[0], [1], [-2]], low=[], high=[]))
    for mem in ('arr', 'dict'):
        cs.append(dict(name=f'ctl_gain_{mem}', bk=C.gain([[1, -2], [0, 1]], [1, -1], 3, cs0=1, mem=mem), xs=[[0, 1], [2, -1]], low=[], high=[]))
    cs.append(dict(name='ctl_lin', bk=C.lin([[1], [-2]], [1, 0]), xs=[[0], [3]], low=[], high=[]))
    graphs, inits = vt.explore(ctx, cs, module='MCController')
    jobs = []
    for c, g, s0 in zip(cs, graphs, inits):
        walk, left = vt.cover_walk(g, s0, 0, rng)
        s = s0
        for k in walk:
            s = g[s][k][0]
        walk += vt.random_walk(g, s, rng, 600 if ctx.thorough else 120)
        jobs.append((c, walk))
    res = vt.run_jobs(ctx, 'toys', 'run_controller', jobs)
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    vt.validate(ctx, 'TraceController', {'cfgs': cs, 'traces': traces},
                lambda t, l, cl: dict(config=cs[t]['name'], cfg=cs[t], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 8):l]))
