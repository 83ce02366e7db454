"""Delta-v limit switching (C22)."""
import vt

S = 4096


def dv(rng, name, n=1, m=1, dt2=2, steps=1, lim=3., K1=None, K2=None, xs=None, ds=None, rng_ei=12):
    K1 = K1 or [[0] * 6 for _ in range(3)]
    K2 = K2 or [[0] * 6 for _ in range(3)]
    lim2 = int(round(lim * 2 * S))
    fs = [dict(op='filter', x=[int(v * S) for v in x], d=[int(v * S) for v in d]) for x in xs for d in ds]
    ops = fs + [dict(op='reset'), dict(op='enable', v=False), dict(op='enable', v=True), dict(op='info')]
    return dict(name=name, n=n, m=m, n2=2 * n, n3=12 * n * n, nh=2 * n, im=2 // m, dt2=dt2, K1=K1, K2=K2, steps=steps, lim2=lim2, range=rng_ei, ops=ops)


def gains(rng, z=True):
    K1 = [[0] * 6 for _ in range(3)]
    K2 = [[0] * 6 for _ in range(3)]
    for j in range(3):
        for i in (3, 4):
            K1[j][i] = rng.randint(-2, 2)
            K2[j][i] = rng.randint(-2, 2) if z else 0
    return K1, K2


def c22(ctx):
    rng = ctx.rng
    out = []
    z6 = [0] * 6
    # no gain: the limit itself, including reaching it exactly
    ds = [[0, 0, 0], [1, 0, 0], [-1, .5, 0], [1, -1, 1], [0, 0, -1]]
    for m in (1, 2):
        for dt2 in (1, 2):
            for steps in (1, 3):
                xs = [z6 + [0, v] for v in (0, 1, 2, 2.5, 3, 3.5, 5)]
                out.append(dv(rng, f'plain_m{m}_dt{dt2}_n{steps}', m=m, dt2=dt2, steps=steps, lim=3, xs=xs, ds=ds))
    # the backup itself spends delta-v: the number of steps matters
    e1 = [[0] * 6 for _ in range(3)]
    e1[0][3] = -2
    e1[1][4] = 2
    for steps in (1, 2, 3, 5):
        for dt2 in (1, 2):
            xs = [[0, 0, 0, vx, vy, 0, 0, w] for vx, vy in ((1, 0), (2, -1), (0, 0)) for w in (0, 1, 2, 4)]
            out.append(dv(rng, f'spend_n{steps}_dt{dt2}', n=2, steps=steps, dt2=dt2, lim=4 + .5 / S, K1=e1, xs=xs, ds=ds[:4]))
    # integral action: memory must move once per returned backup, never in prediction
    k2 = [[0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 1, 0], [0, 0, 0, 1, 1, 0]]
    for steps in (1, 2, 4):
        xs = [[0, 0, 0, vx, 0, 0, 0, w] for vx in (-1, 1, .5) for w in (0, 3)]
        out.append(dv(rng, f'integral_n{steps}', n=2, steps=steps, lim=4 + .5 / S, K1=[[0, 0, 0, 1, 0, 0], z6, z6], K2=k2, xs=xs, ds=ds[:3], rng_ei=3))
    # steps longer than a second (no orbital motion)
    for steps in (1, 3):
        out.append(dv(rng, f'integral_slow_n{steps}', n=0, dt2=4, steps=steps, lim=4 + .5 / S, K1=[[0, 0, 0, 1, 0, 0], z6, z6], K2=k2, xs=[[0, 0, 0, vx, 0, 0, 0, w] for vx in (-.5, .25) for w in (0, 3)], ds=ds[:3], rng_ei=3))
    # over the limit by a hair: tripped for good
    out.append(dv(rng, 'hair', steps=2, lim=3 + .5 / S, xs=[z6 + [0, 3 + k / S] for k in (-1, 0, 1, 2)] + [z6 + [0, 0]], ds=[[0, 0, 0], [0, 1, 0]]))
    # long look-aheads: the limit is passed at one particular step (no orbital motion, constant effort)
    e2 = [[0] * 6 for _ in range(3)]
    e2[0][4] = 2
    for steps in (40, 64, 120):
        hit = sorted({0, 1, 2, steps // 2, steps - 15, steps - 2, steps - 1, steps, steps + 1, steps + 2})
        xs = [[0, 0, 0, 0, .0625, 0, 0, 4 - k / 32.] for k in hit]
        out.append(dv(rng, f'long_n{steps}', n=0, steps=steps, dt2=1, lim=4 + .5 / S, K1=e2, xs=xs, ds=[[0, 0, 0], [0, 0, .0625]]))
    # large accumulated errors whose effect is small
    k3 = [[0, 0, 0, 1, -1, 0], z6, [0, 0, 0, -1, 1, 0]]
    out.append(dv(rng, 'windup', n=0, steps=2, lim=4 + .5 / S, K2=k3, xs=[[0, 0, 0, 30, 30.25, 0, 0, w] for w in (0, 5)] + [[0, 0, 0, -30, -30.25, 0, 0, 1]], ds=ds[:2], rng_ei=300))
    for k in range(24 if ctx.thorough else 6):
        K1, K2 = gains(rng)
        n = rng.choice([1, 2])
        dt2 = rng.choice([1, 2]) if n == 2 else 2
        steps = rng.randint(1, 4 if n == 2 else 3)
        xs = [[rng.randint(-2, 2), 2 * rng.randint(-1, 1), rng.randint(-2, 2), rng.randint(-1, 1), rng.randint(-1, 1), rng.randint(-1, 1), 0, rng.randint(0, 8) / 2] for _ in range(6)]
        out.append(dv(rng, f'rand{k}', n=n, m=rng.choice([1, 2]), dt2=dt2, steps=steps, lim=rng.choice([2, 3, 4]) + .5 / S, K1=K1, K2=K2, xs=xs, ds=[[rng.randint(-2, 2) / 2 for _ in range(3)] for _ in range(3)], rng_ei=6))
    run(ctx, out)
    status = vt.run_jobs(ctx, 'deltav', 'default_construction', [0])[0]
    if status != 'ok':
        ctx.fail('the delta-v limit module cannot be constructed with its default parameters', site='default-construction' if status == 'riccati' else None, status=status)


def few(rng):
    """a latch, an integrator: what this module remembers (C07, C08)"""
    z6 = [0] * 6
    ds = [[0, 0, 0], [1, 0, 0], [-1, .5, 0]]
    out = [dv(rng, 'dv_latch', steps=2, lim=3, xs=[z6 + [0, v] for v in (0, 2.5, 3.5)], ds=ds)]
    k2 = [[0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 1, 0], [0, 0, 0, 1, 1, 0]]
    for steps in (1, 4):
        out.append(dv(rng, f'dv_integral_n{steps}', n=2, steps=steps, lim=4 + .5 / S, K1=[[0, 0, 0, 1, 0, 0], z6, z6], K2=k2, xs=[[0, 0, 0, vx, 0, 0, 0, w] for vx in (-1, .5) for w in (0, 3)], ds=ds, rng_ei=3))
    return out


def run(ctx, out):
    rng = ctx.rng
    graphs, inits = vt.explore(ctx, out, 'MCDeltaV')
    jobs = []
    for c, g, s0 in zip(out, graphs, inits):
        walk, left = vt.cover_walk(g, s0, 0, rng, None if ctx.thorough else 2500)
        ctx.notes['transitions_not_replayed'] = ctx.notes.get('transitions_not_replayed', 0) + left
        s = s0
        for k in walk:
            s = g[s][k][0]
        walk += vt.random_walk(g, s, rng, 1000 if ctx.thorough else 200)
        for e in g.values():
            for _, v in e.values():
                if v:
                    ctx.verdicts[v] = ctx.verdicts.get(v, 0) + 1
        jobs.append((c, [c['ops'][k] for k in walk]))
    res = vt.run_jobs(ctx, 'deltav', 'run', jobs)
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    slim = [dict(c, ops=[]) for c in out]
    ctx.samples.append({'config': slim[0]['name'], 'calls': traces[0]['ev'][:3]})
    ctx.assumptions.append('backup gains are supplied by a stand-in for the Riccati solver (the constructor\'s own equation has no solution, see the known finding)')
    vt.validate(ctx, 'TraceDeltaV', {'cfgs': slim, 'traces': traces}, lambda t, l, cl: dict(config=slim[t]['name'], cfg=slim[t], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 4):l]))
