"""Combined multi-agent inspection (C21)."""
import vt


def stub(rng, name, n, low=(), high=(), dlow=(), dhigh=(), form='list', ops=6):
    k = 6 * n + 1
    W = [[rng.randint(-9, 9) for _ in range(k)] for _ in range(3)]
    V = [rng.choice([-3, -2, -1, 1, 2, 3]) if j < 6 else rng.choice([0, 0, 1]) for j in range(k)]
    xs = [[rng.randint(-20, 20) for _ in range(k)] for _ in range(ops)]
    # make the threshold split the agents
    fs = [dict(op='filter', x=x, d=[rng.randint(-30, 30) for _ in range(3 * n)]) for x in xs]
    fs.append(dict(op='filter', x=[0] * k, d=[0] * (3 * n)))
    other = [dict(op='reset'), dict(op='enable', v=False), dict(op='enable', v=True), dict(op='denable', v=False), dict(op='denable', v=True), dict(op='info')]
    return dict(name=name, n=n, W=W, V=V, thr=rng.choice([5, 40, 70]), low=list(low), high=list(high), dlow=list(dlow), dhigh=list(dhigh), form=form, ops=fs + other)


def c21(ctx):
    rng = ctx.rng
    cs = []
    for n in (1, 2, 3, 4, 5, 6) + ((7, 9) if ctx.thorough else ()):
        for rep in range(3 if ctx.thorough else 1):
            cs.append(stub(rng, f'free{n}_{rep}', n))
            # only one agent can ever trip: each position in turn
        for a in range(n):
            c = stub(rng, f'only{n}_{a}', n, dlow=[-50], dhigh=[60])
            c['V'] = [1] + [0] * (6 * n)
            c['thr'] = 1000
            x = [rng.randint(-20, 20) for _ in range(6 * n + 1)]
            x[6 * a] = 1500
            c['ops'].append(dict(op='filter', x=x, d=[rng.randint(-5, 5) for _ in range(3 * n)]))
            cs.append(c)
    cs.append(stub(rng, 'own_bounds', 3, low=[-30], high=[20], form='int'))
    cs.append(stub(rng, 'own_bounds_list', 2, low=[-5, -10, -15, -20, -25, -30], high=[30, 25, 20, 15, 10, 5], form='array'))
    cs.append(stub(rng, 'deputy_bounds', 3, dlow=[-10, -20, -30], dhigh=[30, 20, 10]))
    graphs, inits = vt.explore(ctx, cs, 'MCCombined')
    jobs = []
    for c, g, s0 in zip(cs, graphs, inits):
        walk, left = vt.cover_walk(g, s0, 0, rng)
        s = s0
        for k in walk:
            s = g[s][k][0]
        walk += vt.random_walk(g, s, rng, 500 if ctx.thorough else 60)
        for e in g.values():
            for _, v in e.values():
                ctx.verdicts[v] = ctx.verdicts.get(v, 0) + 1
        jobs.append((c, [c['ops'][k] for k in walk], rng.randint(0, 9)))
    res = vt.run_jobs(ctx, 'combined', 'run', jobs)
    # the real deputies
    real = []
    for n, given in ((1, False), (2, False), (3, True)) + (((4, False), (2, True)) if ctx.thorough else ()):
        pts = []
        for _ in range(40 if ctx.thorough else 12):
            x = []
            for _a in range(n):
                r = rng.choice([12., 20., 60., 200.])
                p = [rng.uniform(-1, 1) for _ in range(3)]
                m = sum(v * v for v in p) ** .5
                x += [r * v / m for v in p] + [rng.uniform(-.9, .9) for _ in range(3)]
            x.append(rng.uniform(0, 6.2))
            pts.append((x, [rng.uniform(-1, 1) for _ in range(3 * n)]))
        real.append((n, given, pts))
    rr = vt.run_jobs(ctx, 'combined', 'run_real', real)
    exact = [(n, stub(rng, 'off', n) if n > 2 else None, [([rng.uniform(-50, 50) for _ in range(6 * n + 1)], [rng.uniform(-1, 1) * 10**rng.randint(-6, 0) for _ in range(3 * n)]) for _ in range(6)]) for n in (1, 2, 3, 5)]
    re = vt.run_jobs(ctx, 'combined', 'run_exact', exact)
    cfgs = [dict(c, ops=[]) for c in cs] + [dict(stub(rng, f'real{n}', n), ops=[]) for n, _, _ in real] + [dict(stub(rng, f'exact{n}', n), ops=[]) for n, _, _ in exact]
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res + rr + re)]
    ctx.samples.append({'config': cfgs[0]['name'], 'calls': traces[0]['ev'][:3]})
    vt.validate(ctx, 'TraceCombined', {'cfgs': cfgs, 'traces': traces}, lambda t, l, cl: dict(config=cfgs[t]['name'], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 3):l]))
