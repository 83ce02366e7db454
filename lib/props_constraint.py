"""The constraint library (C19)."""
import vt


def limit(rng, name, t, n, i, lim, b100=0, a=(), an=(), given=False, jit=True, xs=None, lims=None, en=True):
    vals = [-9, -5, -4, -1, 0, 1, 2, 4, 5, 9, 40]
    xs = xs or [[(vals[(p + 3 * j) % len(vals)] if j != i - 1 else v) for j in range(n)] for p, v in enumerate(sorted({lim, lim + 1, lim - 1, -lim, -lim - 1, 1 - lim, 0, 9, -40}))]
    lims = lims or sorted({lim, lim + 3, 0, 6})
    ops = [dict(op='eval', x=x) for x in xs] + [dict(op='set', l=v) for v in lims] + [dict(op='alpha', v=v) for v in (-6, -3, -1, 0, 1, 2, 5)]
    return dict(name=name, kind='limit', t=t, n=n, i=i, lim=lim, b100=b100, a=list(a), an=list(an), given=given, own=False, jit=jit, en=en, deg=max(4, len(a) - 1, len(an) - 1), ops=ops)


def strengthener(name, a=None):
    deg = max(4, len(a or []) - 1)
    ops = [dict(op='alpha', v=v) for v in (range(-6, 7) if deg == 4 else range(-4, 5))]
    return dict(name=name, kind='alpha', a=list(a or []), an=[], given=a is not None, own=True, lim=0, jit=True, en=True, deg=deg, ops=ops)


def term(c, *e):
    return dict(c=c, e=list(e))


def hocbf(name, base, n, r, a, drift, xs, i=1, poly=(), bias=0, obias=0, lim=1, lims=(1, 3), jit=True, en=True):
    ops = [dict(op='eval', x=list(x)) for x in xs] + [dict(op='set', l=v) for v in lims]
    return dict(name=name, kind='hocbf', base=base, n=n, i=i, r=r, a=list(a), drift=drift, poly=list(poly), bias=bias, obias=obias, lim=lim, jit=jit, en=en, deg=4, small=r <= 2 and n <= 2 and len(a) <= 2, ops=ops)


def chain(n):
    """x1' = x2, ..., xn' = 0"""
    return [[term(1, *[1 if k == j + 1 else 0 for k in range(n + 1)])] if j < n - 1 else [] for j in range(n)]


def grid(rng, n, lo, hi, num):
    pts = {tuple(rng.randint(lo, hi) for _ in range(n)) for _ in range(num)}
    return sorted(pts)


def rand_drift(rng, n):
    out = []
    for _ in range(n):
        ts = []
        for _ in range(rng.randint(1, 2)):
            e = [0] * (n + 1)
            for _ in range(rng.randint(0, 2)):
                e[rng.randrange(n)] += 1
            ts.append(dict(c=rng.choice([-2, -1, 1, 2]), e=e))
        out.append(ts)
    return out


def rand_poly(rng, n):
    ts = [dict(c=1, e=[0] * n + [1])]
    for _ in range(rng.randint(1, 3)):
        e = [0] * (n + 1)
        for _ in range(rng.randint(1, 2)):
            e[rng.randrange(n)] += 1
        ts.append(dict(c=rng.choice([-2, -1, 1, 2]), e=e))
    return ts


def c19(ctx):
    rng = ctx.rng
    cs = []
    for t in ('max', 'min', 'mag'):
        for n, i in ((1, 1), (3, 1), (3, 3), (6, 4)):
            cs.append(limit(rng, f'{t}_{n}_{i}', t, n, i, rng.choice([2, 5, 8]), b100=rng.choice([0, 0, -1, -25, 300]), jit=bool(i % 2)))
        cs.append(limit(rng, f'{t}_own_alpha', t, 2, 2, 4, b100=-100, a=[0, 5000, 0, 10000]))
        cs.append(limit(rng, f'{t}_own_both', t, 2, 1, 4, a=[0, 20000], an=[0, 1000, 0, 500]))
        cs.append(limit(rng, f'{t}_const', t, 2, 1, 7, a=[700, 20000, 300]))
    cs += [strengthener('default'), strengthener('zero', [0]), strengthener('lin', [0, 20000]), strengthener('const', [5000]), strengthener('full', [100, -2000, 300, 4000, -50]),
           strengthener('even', [0, 0, 10000]), strengthener('cubic', [0, 5, 0, 10]), strengthener('quart', [0, 0, 0, 0, 10000])]
    cs += [strengthener('fifth', [0, 0, 0, 0, 0, 10000]), strengthener('sixth', [0, 100, 0, 0, 0, 0, -9000]), strengthener('seventh', [500, -20, 0, 30, 0, 7, 0, 8000])]
    # a disabled constraint is not enforced, but what it says is the same
    for t in ('max', 'min', 'mag'):
        cs.append(limit(rng, f'{t}_off', t, 2, 1, 4, b100=-150, en=False))
        cs.append(hocbf(f'ho2_{t}_off', t, 2, 2, [0, 2], chain(2), grid(rng, 2, -3, 3, 8), bias=-1, obias=1, en=False))
    for k in range(12 if ctx.thorough else 3):
        cs.append(strengthener(f'rand{k}', [rng.randint(-9, 9) * 10 ** rng.randint(0, 3) for _ in range(rng.randint(1, 5))]))
    for r in (1, 2, 3):
        for base in ('max', 'min', 'mag'):
            n = 3 if r == 3 else 2
            cs.append(hocbf(f'ho{r}_{base}', base, n, r, [0, 2], chain(n), grid(rng, n, -3, 3, 14), bias=rng.choice([0, -1, 2]), obias=rng.choice([0, 1]), jit=bool(r % 2)))
    for r in (4, 5):
        for base in ('max', 'min'):
            cs.append(hocbf(f'ho{r}_{base}', base, r, r, [0, 1], chain(r), grid(rng, r, -2, 2, 10), bias=r - 5, obias=1, jit=base == 'max'))
    cs.append(hocbf('ho2_cubic', 'max', 2, 2, [0, 1, 0, 2], chain(2), grid(rng, 2, -3, 3, 16)))
    cs.append(hocbf('ho3_quad', 'min', 3, 3, [0, 1, 1], chain(3), grid(rng, 3, -2, 2, 16), lim=0, lims=(0, 1)))
    cs.append(hocbf('ho2_cubic_mag', 'mag', 2, 2, [0, 1, 0, 1], chain(2), grid(rng, 2, -2, 2, 12), i=1))
    for k in range(40 if ctx.thorough else 8):
        n = rng.choice([2, 3])
        r = rng.choice([1, 2, 2, 3])
        a = [0, rng.randint(1, 3)] + ([0, 1] if r == 2 and rng.random() < .5 else [])
        cs.append(hocbf(f'horand{k}', rng.choice(['poly', 'poly', 'max', 'mag']), n, r, a, rand_drift(rng, n), grid(rng, n, -2, 2, 12), i=rng.randint(1, n), poly=rand_poly(rng, n), bias=rng.choice([0, -1]),
                        obias=rng.choice([0, 0, -2]), jit=rng.random() < .5))
    graphs, inits = vt.explore(ctx, cs, 'MCConstraint')
    jobs = []
    for c, g, s0 in zip(cs, graphs, inits):
        walk, left = vt.cover_walk(g, s0, 0, rng)
        ctx.notes['transitions_not_replayed'] = ctx.notes.get('transitions_not_replayed', 0) + left
        jobs.append((c, [c['ops'][k] for k in walk]))
    res = vt.run_jobs(ctx, 'constraints', 'run', jobs)
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    slim = [dict(c, ops=[]) for c in cs]
    ctx.samples.append({'config': slim[0]['name'], 'calls': traces[0]['ev'][:3]})
    vt.validate(ctx, 'TraceConstraint', {'cfgs': slim, 'traces': traces}, lambda t, l, cl: dict(config=slim[t]['name'], cfg=slim[t], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 3):l]))
