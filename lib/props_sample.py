"""Sample testing (C18)."""
import cfgs as C
import vt
from props_switch import ONE, DBL, TWO


def sample(name, rta, ics, K, k, n=None, h=1, dtm=1000, steps=5, A=None, c=None, B=None, done=(), off=None, check=True, pre=(), tlim=None):
    nx = len(rta['A'])
    return dict(name=name, rta=dict(rta, ops=[]), ics=[list(i) for i in ics], off=list(off or [0] * nx), A=A or rta['A'], c=c or rta['c'], B=B or rta['B'], K=K, k=k, n=n or 0, h=h, dtm=dtm,
                steps=steps if tlim is None else -(-tlim // dtm), tlim=steps * dtm if tlim is None else tlim, done=list(done), check=check, pre=list(pre))


def family(ctx):
    rng = ctx.rng
    out = []
    box = [C.con('max', 1, 3), C.con('min', 1, -3)]

    def es(name, cons=box, **kw):
        a = dict(low=[-2], high=[2], bk=C.lin([[-1]], [0]))
        a.update(kw)
        return C.cfg(name, 'es', *ONE, cons, **a)

    def ea(name, cons=box, **kw):
        a = dict(low=[-2], high=[2], BS=20)
        a.update(kw)
        return C.cfg(name, 'ea', *ONE, cons, **a)

    pts = C.grid((0, 5, -3, 3, -4, 2, -1, 4, 1))
    for nm, r in (('es', es('es')), ('ea', ea('ea'))):
        out.append(sample(nm + '_match', r, pts, [[0]], [2], steps=4))
        # the plant is not what the module thinks: a drift pushes it out on some step
        for steps in (1, 2, 3, 6):
            out.append(sample(f'{nm}_drift{steps}', r, pts, [[0]], [1], c=[1], steps=steps))
        out.append(sample(nm + '_weak', r, pts, [[1]], [0], B=[[0]], c=[-1], steps=3))
        out.append(sample(nm + '_done', r, pts, [[0]], [1], c=[1], steps=6, done=[3]))
        out.append(sample(nm + '_done_out', r, pts, [[0]], [2], c=[2], steps=6, done=[2]))
        out.append(sample(nm + '_off', r, pts, [[0]], [1], c=[1], steps=2, off=[-2]))
        out.append(sample(nm + '_half', dict(r, mode='dt'), pts, [[0]], [1], c=[1], steps=3, dtm=500))
        out.append(sample(nm + '_quarter', dict(r, mode='dt'), pts, [[0]], [-1], c=[0], steps=7, dtm=250))
        # a time limit between two steps: the episode runs until the limit is reached
        for j, (dtm, tlim) in enumerate(((250, 1100), (250, 1240), (500, 1200), (1000, 2400), (1000, 2900), (2000, 500), (125, 700))):
            out.append(sample(f'{nm}_limit{j}', dict(r, mode='dt'), pts, [[0]], [1], c=[1], dtm=dtm, tlim=tlim))
    # bias: initially safe needs both readings, the episode only the unbiased one
    for b in (-1, 1):
        cons = [C.con('max', 1, 3, bias=b), C.con('min', 1, -3, bias=b)]
        out.append(sample(f'bias{b}_es', es('es', cons), pts, [[0]], [1], c=[1], steps=2))
        out.append(sample(f'bias{b}_ea', ea('ea', cons), pts, [[0]], [2], c=[1], steps=2))
    # returns inside after leaving: still unsafe
    out.append(sample('bounce', es('es', [C.con('mag', 1, 3)]), pts, [[0]], [0], A=[[-2]], c=[0], B=[[0]], steps=3))
    out.append(sample('spike', es('es', [C.con('max', 1, 3)]), pts, [[0]], [0], A=[[-3]], c=[0], B=[[0]], steps=3))
    # solver failure ends an episode as unsafe when raised, not when passed on
    for exc in (True, False):
        out.append(sample(f'inf_{exc}', ea('ea', [C.con('max', 1, 3, a=(0, 2)), C.con('min', 1, -3)], exc=exc, direct=[C.direct('flo', [1], 1)]), pts, [[0]], [0], steps=4))
    # a disabled constraint is still judged
    out.append(sample('judge_off', es('es', [C.con('max', 1, 3), C.con('min', 1, -1, en=False)]), pts, [[0]], [-1], steps=3))
    d2 = C.cfg('two', 'ea', *TWO, [C.con('max', 1, 3), C.con('min', 2, -2)], low=[-2, -2], high=[2, 2])
    out.append(sample('two', d2, C.grid((0, 3, 4), (-2, 0, -3)), [[0, 0], [0, 0]], [2, -2], c=[0, -1], steps=3))
    dbl = C.cfg('dbl', 'is', *DBL, [C.con('max', 1, 5), C.con('min', 1, -5)], low=[-1], high=[1], win=3000, bk=C.lin([[0, -1]], [0]))
    out.append(sample('dbl', dbl, C.grid((0, 4, 6), (-1, 0, 2)), [[0, 0]], [1], steps=6))
    out.append(sample('dbl_gust', dbl, C.grid((0, 4, 6), (-1, 0, 2)), [[0, 0]], [1], c=[0, 1], steps=6))
    # modules with memory: latch timers and stateful backups run through an episode
    lat = dict(latch=2000, bk=C.lin([[-1]], [-1]))
    for nm, kw in (('latch', lat), ('pat', dict(bk=C.pat([[-1], [-2], [1]], 1, 1, mod=4))), ('latchpat', dict(latch=1000, bk=C.pat([[-1], [-2], [1]], 1, 1, mod=4, mem='dict')))):
        for x0 in (0, 3, -2):
            out.append(sample(f'mem_{nm}_{x0}', es('es', **kw), [(9, ), (x0, )], [[0]], [1], steps=6, done=() if x0 else [9], n=1))
    # settings of the module changed before the test: limits judged are the live ones, switched-off constraints are still judged
    for nm, r in (('es', es('es')), ('ea', ea('ea'))):
        out.append(sample(nm + '_pre_tight', r, pts, [[0]], [1], c=[1], steps=3, pre=[C.setlim(1, 2), C.setlim(2, -1)]))
        out.append(sample(nm + '_pre_wide', r, pts, [[0]], [2], c=[1], steps=3, pre=[C.setlim(1, 5), C.setlim(2, -4)]))
        out.append(sample(nm + '_pre_off', r, pts, [[0]], [2], c=[1], steps=3, pre=[C.setcon(1, False)]))
        out.append(sample(nm + '_pre_dis', r, pts, [[0]], [1], c=[1], steps=2, pre=[C.enable(False)]))
        out.append(sample(nm + '_pre_back', r, pts, [[0]], [2], c=[-1], steps=3, pre=[C.setlim(1, 5), C.setlim(1, 2), C.setcon(2, False), C.setcon(2, True)]))
    # many unsafe draws before the first safe one
    out.append(sample('far', es('es'), [(7 + i, ) for i in range(85)] + [(1, ), (9, ), (2, )], [[0]], [1], c=[1], steps=2))
    # the logged value is not the enforced one: a position limit of relative degree two
    for nm, kw in (('es', {}), ('is', dict(win=2000)), ('ea', dict(low=[-150], high=[150]))):
        a = dict(low=[-2], high=[2], bk=C.lin([[0, -1]], [-1]))
        a.update(kw)
        for j, al in enumerate(((0, 1), (0, 2))):
            r = C.cfg('ho', nm, *DBL, [C.con('ho', 1, 4, w=[0, 1], a=al, name='ho')] + ([] if nm == 'ea' else [C.con('min', 2, -3)]), **a)
            out.append(sample(f'ho_{nm}{j}', r, C.grid((0, 3, 4, 5), (-1, 0, 1, 2)), [[0, 0]], [1], c=[0, 0], steps=4))
            out.append(sample(f'ho_{nm}{j}_gust', r, C.grid((0, 3, 4, 5), (-1, 0, 1, 2)), [[0, 0]], [1], c=[0, 1], steps=4, pre=[C.setlim(1, 3)]))
            out.append(sample(f'ho_{nm}{j}_slip', r, C.grid((0, 3, 4, 5), (-1, 0, 1, 2)), [[0, 0]], [2], c=[1, -1], steps=3))
    # the parameter is a factor of the constraint
    sclr = es('es', [C.con('scl', 4, 2, w=[-1], name='scl'), C.con('min', 1, -3)])
    out.append(sample('scl', sclr, pts, [[0]], [1], steps=3))
    out.append(sample('scl_pre', sclr, pts, [[0]], [1], c=[1], steps=3, pre=[C.setlim(1, 4)]))
    # the same tests with other units of length
    for s in C.some(rng, out, 10):
        if not s['rta']['direct'] and s['rta']['kind'] in ('es', 'is'):
            sc = rng.choice((-10, -20))
            out.append(dict(s, name=f"{s['name']}_unit{sc}", rta=dict(s['rta'], sc=sc)))
    for k in range(40 if ctx.thorough else 8):
        r = rng.choice([es, ea])('r', [C.con('max', 1, rng.randint(1, 4), bias=rng.choice((0, 0, -1))), C.con('min', 1, -rng.randint(1, 4))])
        out.append(sample(f'rand{k}', r, [(rng.randint(-5, 5), ) for _ in range(12)], [[rng.choice((0, 0, 1, -1))]], [rng.randint(-2, 2)], c=[rng.randint(-1, 1)], steps=rng.randint(1, 6), done=rng.choice([(), (3, ), (2, )])))
        out[-1]['rta']['sc'] = rng.choice([0, 0, -16]) if r['kind'] == 'es' else 0
    # ask for as many episodes as there are safe candidates, or fewer
    for s in out:
        safe = [x for x in s['ics'] if init_safe(s, [a + b for a, b in zip(x, s['off'])])]
        s['n'] = s['n'] or max(1, len(safe) - rng.choice((0, 0, 1, 2)))
        if len(safe) < s['n']:
            raise vt.Machinery('no safe candidates: ' + s['name'])
    return out


def poly(a, v):
    return sum(k * v**j for j, k in enumerate(a))


def raw(c, x, lim):
    v = x[c['i'] - 1] if c['t'] != 'scl' else 0
    return {'max': lambda: lim - v, 'ho': lambda: lim - v, 'min': lambda: v - lim, 'mag': lambda: lim**2 - v * v, 'lin': lambda: sum(a * b for a, b in zip(c['w'], x)) + lim,
            'scl': lambda: lim * sum(a * b for a, b in zip(c['w'], x)) + c['i']}[c['t']]()


def init_safe(s, x):
    lims = [c['lim'] for c in s['rta']['cons']]
    for op in s['pre']:
        if op['op'] == 'lim':
            lims[op['i'] - 1] = op['v']

    def barrier(c, lim):
        if c['t'] == 'ho':
            return poly(c['a'], lim - x[c['i'] - 1]) - sum(a * b for a, b in zip(c['w'], x))
        return raw(c, x, lim)

    return all(raw(c, x, m) >= 0 and barrier(c, m) + c['bias'] >= 0 for c, m in zip(s['rta']['cons'], lims))


def c18(ctx):
    rng = ctx.rng
    cs = family(ctx)
    p = vt.dump(ctx.path('cfgs.json'), cs)
    _, st = vt.tlc(ctx, 'MCSample', 'SPECIFICATION Spec\nINVARIANT RowsOK\nINVARIANT TimeOK\n', {'RTA_CFGS': p})
    ctx.states += st['distinct']
    ctx.transitions += st['generated']
    ctx.log(f'MCSample: {st["distinct"]} states')
    res = vt.run_jobs(ctx, 'sampling', 'run_safety', cs)
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    tracks = []
    for s in cs:
        if s['rta']['exc']:
            continue
        for check in (True, False):
            start = list(s['ics'])
            rng.shuffle(start)
            t = dict(s, name=s['name'] + f'_track{check}', check=check, ics=start)
            tracks.append(t)
    res = vt.run_jobs(ctx, 'sampling', 'run_track', tracks)
    allc = cs + tracks
    traces += [{'c': len(cs) + i + 1, 'ev': e} for i, e in enumerate(res)]
    # built-in samplers
    jobs = []
    base = [s for s in cs if s['name'] in ('es_drift3', 'ea_drift3', 'es_match', 'two', 'dbl_gust')]
    for s in base:
        nx = len(s['A'])
        lo, hi = [-2 - 3 * i for i in range(nx)], [4 + 5 * i for i in range(nx)]
        jobs.append((dict(s, n=6, off=[0] * nx), 'lhs', lo, hi, None, rng.randint(0, 9999)))
        pd = [['uniform', 'gaussian', 'constant'][(i + j) % 3] for j in (0, 1, 2) for i in range(nx)]
        for j in range(3):
            pdfs = pd[j * nx:(j + 1) * nx]
            l2 = [{'uniform': -2 - i, 'gaussian': 1, 'constant': 1}[q] for i, q in enumerate(pdfs)]
            h2 = [{'uniform': 3 + i, 'gaussian': .5, 'constant': 0}[q] for i, q in enumerate(pdfs)]
            if set(pdfs) != {'constant'}:
                jobs.append((dict(s, n=6, off=[0] * nx), 'par', l2, h2, pdfs, rng.randint(0, 9999)))
    res = vt.run_jobs(ctx, 'sampling', 'run_samplers', jobs)
    allc = allc + [j[0] for j in jobs]
    traces += [{'c': len(cs) + len(tracks) + i + 1, 'ev': e} for i, e in enumerate(res)]
    # ready-made docking tests
    zj = []
    for j in range(8 if ctx.thorough else 4):
        kind = ('lhs', 'par')[j % 2]
        q = dict(kind=kind, rta=('default', 'ea', 'es', 'default')[(j + j // 4) % 4], n=3, steps=rng.choice((3, 5)), dtm=rng.choice((1000, 2000, 500)), law=[rng.choice((-1, 0, 1)), rng.choice((-1, 1))], seed=rng.randint(0, 9999),
                 lo=[], hi=[], pdfs=[], dlo=[-10000, -10000, -5, -5] if kind == 'lhs' else [0] * 4, dhi=[10000, 10000, 5, 5] if kind == 'lhs' else [5000, 5000, 2, 2], name=f'zoo_{kind}{j}')
        if j >= 2:
            q['lo'], q['hi'] = [-900, -700, -3, -4], [800, 600, 4, 2]
            if kind == 'par':
                q['pdfs'], q['lo'], q['hi'] = ['uniform', 'gaussian', 'constant', 'uniform'], [-900, 100, 1, -3], [900, 50, 0, 2]
        zj.append(q)
    res = vt.run_jobs(ctx, 'sampling', 'run_zoo', zj)
    traces += [{'c': len(allc) + i + 1, 'ev': e} for i, e in enumerate(res)]
    allc = allc + [dict(base[0], name=q['name']) for q in zj]
    ctx.samples.append({'config': cs[1]['name'], 'calls': traces[1]['ev'][:4]})
    for tr in traces:
        for e in tr['ev']:
            if e['op'] == 'row':
                k = f'verdict {e["safe"]}'
                ctx.verdicts[k] = ctx.verdicts.get(k, 0) + 1
    vt.validate(ctx, 'TraceSample', {'cfgs': allc, 'traces': traces}, lambda t, l, cl: dict(config=allc[traces[t]['c'] - 1]['name'], cfg={k: v for k, v in allc[traces[t]['c'] - 1].items() if k != 'rta'}, event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 3):l]))
