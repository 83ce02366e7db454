"""Closed-loop safety of switching modules (C05)."""
import cfgs as C
import vt
from props_switch import ONE, DBL, TWO


def loop(name, kind, plant, cons, starts, ds, h=1, dtm=1000, **kw):
    starts = sorted(starts, key=lambda v: sum(map(abs, v)))
    c = C.cfg(name, kind, *plant, cons, ops=[dict(op='start', x=list(s)) for s in starts] + [dict(op='go', d=list(d)) for d in ds], **kw)
    c.update(range=9, starts=[list(s) for s in starts], h=h, dtm=dtm)
    return c


def c05(ctx):
    rng = ctx.rng
    out = []
    box = [C.con('max', 1, 3), C.con('min', 1, -3)]
    D1 = C.grid(range(-4, 5))
    for latch in (0, 1000, 2000, 5000):
        for kind in ('es', 'is'):
            out.append(loop(f'box_{kind}_{latch}', kind, ONE, box, C.grid(range(-3, 4)), D1, latch=latch, win=2000, low=[-2], high=[2], bk=C.lin([[-1]], [0])))
    out.append(loop('bias_es', 'es', ONE, [C.con('max', 1, 3, bias=-1), C.con('min', 1, -3, bias=1)], C.grid(range(-2, 3)), D1, low=[-4], high=[4], bk=C.lin([[-1]], [0])))
    out.append(loop('mag_es', 'es', TWO, [C.con('mag', 1, 3), C.con('mag', 2, 2), C.con('lin', 1, 4, w=[1, 1], name='mix')], C.grid((-2, 0, 3), (-2, 0, 2)), C.grid((-3, 0, 2), (-3, 1, 3)), low=[-2, -1], high=[1, 2],
                    bk=C.lin([[-1, 0], [0, -1]], [0, 0]), latch=1000))
    out.append(loop('unbounded_es', 'es', ONE, box, C.grid(range(-3, 4)), C.grid((-9, -4, 0, 3, 8)), bk=C.lin([[-1]], [0])))
    # biased backup: the backup itself moves along the safe set's edge; oversize steps
    out.append(loop('edge_es', 'es', ONE, [C.con('max', 1, 2)], C.grid(range(-4, 3)), D1, low=[-3], high=[3], bk=C.lin([[-1]], [2])))
    out.append(loop('h2_es', 'es', ONE, box, C.grid(range(-3, 4)), D1, h=2, dtm=2000, low=[-2], high=[2], bk=C.lin([[0]], [0]), latch=2000))
    # braking double integrator, window long enough to stop
    for win, latch in ((3000, 0), (3000, 2000), (6000, 1000)):
        out.append(loop(f'brake_is_{win}_{latch}', 'is', DBL, [C.con('max', 1, 5), C.con('min', 1, -5), C.con('mag', 2, 3, name='v')], C.grid(range(-5, 6), range(-3, 4)), C.grid((-3, -1, 0, 1, 2)), win=win, latch=latch,
                        low=[-1], high=[1], bk=C.lin([[0, -1]], [0])))
    out.append(loop('wall_is_nojit', 'is', DBL, [C.con('max', 1, 4), C.con('min', 1, -4), C.con('max', 2, 2), C.con('min', 2, -2)], C.grid(range(-4, 5), range(-2, 3)), C.grid((-2, 0, 1)), win=2000, jit=False, low=[-1], high=[1], bk=C.lin([[0, -1]], [0])))
    out.append(loop('wall_is_jit', 'is', DBL, [C.con('max', 1, 4), C.con('min', 1, -4), C.con('max', 2, 2), C.con('min', 2, -2)], C.grid(range(-4, 5), range(-2, 3)), C.grid((-2, 0, 1)), win=2000,
                    jitd={'pred_state': True, 'integrate': True}, low=[-1], high=[1], bk=C.lin([[0, -1]], [0])))
    # 0.1 s steps of a discrete plant with decimal windows
    for dtm, win in ((100, 300), (100, 700), (300, 900)):
        out.append(loop(f'dec_is_{dtm}_{win}', 'is', DBL, [C.con('max', 1, 5), C.con('min', 1, -5), C.con('mag', 2, min(3, win // dtm), name='v')], C.grid(range(-5, 6), range(-3, 4)), C.grid((-2, 0, 1)), dtm=dtm, win=win, mode='dt', latch=2 * dtm,
                        low=[-1], high=[1], bk=C.lin([[0, -1]], [0])))
    # patterned (stateful) backups: repeating moves that return
    out.append(loop('pat_es', 'es', ONE, [C.con('max', 1, 3)], C.grid(range(-2, 4)), D1, low=[-3], high=[3], bk=C.pat([[-1], [-2], [0]], 1, 1, mod=3)))
    out.append(loop('pat_is', 'is', ONE, [C.con('max', 1, 3), C.con('min', 1, -7)], C.grid(range(-2, 4)), C.grid((-1, 0, 1, 2)), win=2000, low=[-2], high=[2], latch=1000, bk=C.pat([[-1], [1], [0]], 1, 1, mod=3)))
    out += C.rescaled(out, rng, 3, units=(-8, -20)) + C.retimed(out, rng, 3)
    ok = []
    for c in out + rand_loops(ctx, 24 if ctx.thorough else 6):
        ok.append(c)
    graphs, inits = vt.explore(ctx, ok, 'MCLoop', invs=('Assumption', 'Safe', 'Inductive'))
    jobs = []
    for c, g, s0 in zip(ok, graphs, inits):
        walk, left = vt.cover_walk(g, s0, 0, rng, None if ctx.thorough else 1500)
        ctx.notes['transitions_not_replayed'] = ctx.notes.get('transitions_not_replayed', 0) + left
        s = s0
        for k in walk:
            s = g[s][k][0]
        walk += vt.random_walk(g, s, rng, 1500 if ctx.thorough else 150)
        for e in g.values():
            for _, v in e.values():
                ctx.verdicts[v] = ctx.verdicts.get(v, 0) + 1
        jobs.append((c, [c['ops'][k] for k in walk], rng.randint(0, 7)))
    order = sorted(range(len(jobs)), key=lambda i: -len(jobs[i][1]))
    res = vt.run_jobs(ctx, 'toys', 'run_loop', [jobs[i] for i in order])
    traces = [None] * len(jobs)
    for i, r in zip(order, res):
        traces[i] = {'c': i + 1, 'ev': r}
    slim = [dict(c, ops=[], starts=[]) for c in ok]
    ctx.samples.append({'config': slim[0]['name'], 'calls': traces[0]['ev'][:3]})
    ctx.assumptions.append('the recorded loops step the plant exactly as the module predicts, from start states whose backup trajectory is safe (the property\'s own assumption)')
    vt.validate(ctx, 'TraceLoop', {'cfgs': slim, 'traces': traces},
                lambda t, l, cl: dict(config=slim[t]['name'], cfg=slim[t], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 6):l]))
    import props_zoo
    props_zoo.loops(ctx)


def rand_loops(ctx, n):
    """random boxes and saturated return-to-centre backups: invariance holds by construction and is re-checked by TLC"""
    rng = ctx.rng
    out = []
    for k in range(n):
        a, b = rng.randint(1, 4), rng.randint(1, 4)
        u = rng.randint(1, 3)
        if rng.random() < .5:
            out.append(loop(f'rl_{k}', rng.choice(['es', 'is']), ONE, [C.con('max', 1, a), C.con('min', 1, -b)], C.grid(range(-b, a + 1)), C.grid(range(-4, 5)), low=[-u], high=[rng.randint(1, 3)], win=rng.choice([0, 1000, 3000]),
                            bk=C.lin([[-1]], [0]), latch=rng.choice([0, 1000, 3000]), jit=rng.random() < .7))
        else:
            v = rng.randint(1, 3)
            p = rng.randint(4, 6)
            out.append(loop(f'rl_{k}', 'is', DBL, [C.con('max', 1, p), C.con('min', 1, -p), C.con('mag', 2, v, name='v')], [(0, 0)] + C.some(rng, C.grid(range(-p, p + 1), range(-v, v + 1)), 20), C.grid((-3, -1, 0, 2)), low=[-1], high=[1],
                            win=1000 * (v + rng.randint(0, 2)), latch=rng.choice([0, 1000, 2000]), bk=C.lin([[0, -1]], [0])))
    return out
