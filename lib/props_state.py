"""State wrappers (C25)."""
import vt

NAMES = {'int1d': ['x', 'x_dot'], 'dock2d': ['x', 'y', 'x_dot', 'y_dot'], 'dock3d': ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'],
         'insp3d': ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'sun_angle', 'delta_v']}


def c25(ctx):
    rng = ctx.rng
    cs = []
    for cls, names in NAMES.items():
        n = len(names)
        for form in ('np', 'jnp', 'f32'):
            init = [rng.randint(1, 9) * (10 ** (j % 3)) * rng.choice((-1, 1)) for j in range(n)]
            for j in range(n):      # all components distinct
                while init.count(init[j]) > 1:
                    init[j] += 1
            new = [v + rng.randint(1000, 2000) for v in init]
            one = [dict(op='set', k=1, i=i + 1, v=v) for i, pair in enumerate(zip(init, new)) for v in pair]
            ops = one + [dict(op='caller', v=-7), dict(op='look')]
            if n <= 4:
                ops += [dict(op='set', k=2, i=i + 1, v=new[i]) for i in range(n)] + [dict(op='fork')]
            cs.append(dict(name=f'{cls}_{form}', cls=cls, form=form, names=names, init=init, ops=ops))
    graphs, inits = vt.explore(ctx, cs, 'MCStateWrap')
    jobs = []
    for c, g, s0 in zip(cs, graphs, inits):
        walk, left = vt.cover_walk(g, s0, 0, rng, None if ctx.thorough else 1200)
        ctx.notes['transitions_not_replayed'] = ctx.notes.get('transitions_not_replayed', 0) + left
        ops = [c['ops'][k] for k in walk]
        for _ in range(1500 if ctx.thorough else 150):      # beyond the explored values: everything mixed
            ops.append(rng.choice([dict(op='set', k=rng.randint(1, 2), i=rng.randint(1, len(c['init'])), v=rng.randint(-5000, 5000)), dict(op='set', k=1, i=rng.randint(1, len(c['init'])), v=0), dict(op='caller', v=rng.randint(-9, 9)), dict(op='fork'), dict(op='look')]))
        jobs.append((c, ops))
    res = vt.run_jobs(ctx, 'wrappers', 'run', jobs)
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    slim = [dict(c, ops=[]) for c in cs]
    ctx.samples.append({'config': slim[0]['name'], 'calls': traces[0]['ev'][:3]})
    vt.validate(ctx, 'TraceStateWrap', {'cfgs': slim, 'traces': traces}, lambda t, l, cl: dict(config=slim[t]['name'], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 3):l]))
