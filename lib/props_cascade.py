"""Cascades: in-order composition (C13)."""
import cfgs as C
import vt
from props_switch import ONE, TWO


def stage(kind, name, cons, two=False, **kw):
    args = dict(win=2000, tol=3, BS=20)
    args.update(low=[-4, -4] if two else [-4], high=[4, 4] if two else [4], bk=C.lin([[-1, 0], [0, -1]], [0, 0]) if two else C.lin([[-1]], [0]))
    args.update(kw)
    return C.cfg(name, kind, *(TWO if two else ONE), cons, **args)


def casc(name, stages, low=(), high=(), ops=(), tol=5, form='list', only=()):
    return dict(name=name, stages=[dict(s, ops=[]) for s in stages], low=list(low), high=list(high), bform=form, tol=tol, only=list(only), ops=list(ops))


def sub(k, op):
    return dict(op='stage', k=k, sub=op)


def library():
    top = C.con('max', 1, 3, name='top')
    bot = C.con('min', 1, -2, name='bot')
    tight = C.con('max', 1, 1, name='tight')
    return top, bot, tight


def c13(ctx):
    rng = ctx.rng
    top, bot, tight = library()
    xs, ds = C.grid((-3, -1, 0, 2, 4)), C.grid((-6, -1, 0, 2, 6))
    fs = C.filts(xs, ds)
    sw = [C.RESET, C.enable(False), C.enable(True), C.INFO]
    out = []
    es = lambda nm, cons, **k: stage('es', nm, cons, **k)
    ea = lambda nm, cons, **k: stage('ea', nm, cons, **k)
    out.append(casc('one_es', [es('s1', [top])], ops=fs + sw))
    out.append(casc('one_ea_bounds', [ea('s1', [top, bot])], [-1], [1], ops=fs + sw))
    out.append(casc('es_ea', [es('s1', [top], bk=C.lin([[-1]], [-1])), ea('s2', [bot])], [-2], [3], ops=fs + sw))
    out.append(casc('ea_es', [ea('s1', [top]), es('s2', [tight], bk=C.lin([[0]], [-3]))], [], [2], ops=fs + sw))
    out.append(casc('nonassoc', [ea('s1', [top], direct=[C.direct('flo', [1], 1)]), ea('s2', [bot], direct=[C.direct('cap', [-1], 1)])], ops=fs + sw))
    out.append(casc('nonassoc_r', [ea('s1', [bot], direct=[C.direct('cap', [-1], 1)]), ea('s2', [top], direct=[C.direct('flo', [1], 1)])], [-3], [3], ops=fs + sw))
    out.append(casc('three', [ea('s1', [top], direct=[C.direct('flo', [1], 0)]), es('s2', [tight], bk=C.lin([[-1]], [1])), ea('s3', [bot], high=[2], low=[-3])], [-2], [4],
                    ops=fs + sw + [sub(1, C.enable(False)), sub(1, C.enable(True)), sub(2, C.enable(False)), sub(2, C.enable(True))]))
    # what passes between the stages is not limited by the cascade's own bounds, whichever stages are switched off
    out.append(casc('between', [es('s1', [tight], bk=C.lin([[0]], [-4])), es('s2', [C.con('max', 1, 9, name='far')]), es('s3', [bot], bk=C.lin([[0]], [1]))], [-1], [1],
                    ops=C.filts(C.grid((-1, 0, 1)), C.grid((-3, 0, 1, 3))) + [sub(k, C.enable(v)) for k in (1, 2, 3) for v in (False, True)]))
    out.append(casc('latched', [es('s1', [top], latch=2000, bk=C.pat([[-1], [-2], [0]], 1, 1, mod=4)), ea('s2', [bot])], [-2], [2], ops=C.filts(C.grid((-3, 0, 3)), C.grid((-6, 0, 3))) + sw))
    out.append(casc('latched2', [es('s1', [top], latch=1000), es('s2', [bot], latch=2000, bk=C.acc([[0]], [1], 3))], [-2], [2],
                    ops=C.filts(C.grid((-3, 0, 3)), C.grid((-6, 0, 3))) + sw + [sub(2, C.RESET), sub(1, C.enable(False)), sub(1, C.enable(True))]))
    out.append(casc('implicit', [stage('is', 's1', [top]), stage('ia', 's2', [bot], bk=C.lin([[0]], [0])), stage('es', 's3', [tight])], [-3], [3], ops=fs + sw))
    out.append(casc('implicit_r', [stage('ia', 's1', [top], bk=C.lin([[0]], [0])), stage('is', 's2', [bot], latch=1000)], ops=fs + sw))
    out.append(casc('live', [ea('s1', [top]), es('s2', [bot])], ops=C.filts(C.grid((-3, 0, 3)), C.grid((-6, 0, 3))) + [sub(1, C.setlim(1, 1)), sub(1, C.setlim(1, 3)), sub(2, C.setcon(1, False)), sub(2, C.setcon(1, True)), C.RESET]))
    out.append(casc('infeasible_mid', [es('s1', [top]), ea('s2', [top, bot], low=[-1], high=[1]), ea('s3', [top], direct=[C.direct('flo', [1], 0)])], ops=fs + sw))
    out.append(casc('four', [ea(f's{i}', [top], direct=[C.direct('q', [(-1) ** i], b)]) for i, b in enumerate((-3, -2, 0, -1))], [-2], [2], ops=fs + [C.RESET]))
    fs2 = C.filts(C.grid((-3, 0, 4), (-2, 3)), C.grid((-6, 1, 5), (-5, 2)))
    c2 = C.con('max', 2, 2, name='y')
    out.append(casc('two_dim', [ea('s1', [top, c2], two=True), es('s2', [C.con('min', 2, -2, name='yb')], two=True)], [-2, -3], [3, 1], ops=fs2 + sw))
    out.append(casc('two_dim_form', [es('s1', [top, c2], two=True), ea('s2', [C.con('min', 2, -2, name='yb')], two=True)], [-2, -2], [1, 1], form='scalar', ops=fs2 + sw))
    # cascades of cascades
    inner = casc('in', [es('i1', [top], latch=1000, bk=C.pat([[-1], [-2]], 1, 1, mod=3)), ea('i2', [bot])], [-2], [1])
    out.append(casc('nest_first', [inner, ea('s2', [tight], direct=[C.direct('flo', [1], -1)])], [], [2], ops=C.filts(C.grid((-3, 0, 3)), C.grid((-6, 0, 3))) + sw + [sub(1, C.enable(False)), sub(1, C.enable(True))]))
    out.append(casc('nest_last', [es('s1', [tight], bk=C.lin([[0]], [-3])), inner], [-1], [4], ops=C.filts(C.grid((-3, 0, 3)), C.grid((-6, 0, 3))) + sw + [sub(2, sub(1, C.enable(False))), sub(2, sub(1, C.enable(True))), sub(2, C.RESET)]))
    out.append(casc('nest_deep', [casc('mid', [casc('deep', [ea('d1', [top])], [-3], [3]), es('m2', [bot])], [], [2])], [-2], [], ops=fs + sw))
    for k in range(40 if ctx.thorough else 8):
        st = []
        for i in range(rng.randint(1, 4)):
            kind = rng.choice(['es', 'ea', 'is', 'ea'])
            cons = [rng.choice([C.con('max', 1, rng.randint(0, 4), name='m'), C.con('min', 1, -rng.randint(0, 4), name='n')])]
            kw = {}
            if kind == 'ea' and rng.random() < .5:
                kw['direct'] = [C.direct('q', [rng.choice((-1, 1))], -rng.randint(0, 3))]
            if kind != 'ea':
                kw['latch'] = rng.choice((0, 0, 1000, 2000))
                kw['bk'] = rng.choice([C.lin([[-1]], [0]), C.lin([[0]], [rng.randint(-3, 3)]), C.pat([[-1], [2]], 1, 1, mod=3)])
            st.append(stage(kind, f's{i}', cons, **kw))
        lo, hi = rng.choice([([], []), ([-2], [3]), ([-1], []), ([], [2])])
        ops = C.filts(C.grid((-3, 0, 3)), C.grid((-6, 0, 3))) + [C.RESET, C.enable(False), C.enable(True)]
        j = rng.randint(1, len(st))
        ops += [sub(j, C.enable(False)), sub(j, C.enable(True))]
        out.append(casc(f'rand{k}', st, lo, hi, ops=ops))
    run(ctx, out, 1500 if ctx.thorough else 120)
    import props_zoo
    props_zoo.cascades(ctx)


def run(ctx, cfgs, extra, info_rate=0.1):
    graphs, inits = vt.explore(ctx, cfgs, 'MCCascade')
    jobs = []
    for c, g, s0 in zip(cfgs, graphs, inits):
        walk, left = vt.cover_walk(g, s0, len(c['ops']), ctx.rng)
        s = s0
        for k in walk:
            s = g[s][k][0]
        walk += vt.random_walk(g, s, ctx.rng, extra)
        for e in g.values():
            for _, v in e.values():
                if v:
                    ctx.verdicts[v] = ctx.verdicts.get(v, 0) + 1
        ops = []
        for k in walk:
            ops.append(c['ops'][k])
            if ctx.rng.random() < info_rate:
                ops.append(C.INFO)
        jobs.append((c, ops, ctx.rng.randint(0, 7)))
    res = vt.run_jobs(ctx, 'toys', 'run_cascade', jobs)
    slim = [dict(c, ops=[]) for c in cfgs]
    traces = [{'c': i + 1, 'ev': e} for i, e in enumerate(res)]
    ctx.samples.append({'config': slim[0]['name'], 'calls': traces[0]['ev'][:3]})
    vt.validate(ctx, 'TraceCascade', {'cfgs': slim, 'traces': traces},
                lambda t, l, cl: dict(config=slim[t]['name'], event=traces[t]['ev'][l], before=traces[t]['ev'][max(0, l - 5):l]))


def bounded(ctx):
    """cascades that have bounds of their own (C01): any number of stages, ranges on either side of zero, one-sided bounds"""
    top, bot, tight = library()
    mk = [lambda i: stage('es', f's{i}', [top], bk=C.lin([[0]], [-4])), lambda i: stage('ea', f's{i}', [bot]), lambda i: stage('es', f's{i}', [tight], latch=1000, bk=C.lin([[-1]], [4])),
          lambda i: stage('ea', f's{i}', [top], direct=[C.direct('flo', [1], 2)]), lambda i: stage('is', f's{i}', [bot], bk=C.lin([[0]], [3]))]
    out = []
    fs = C.filts(C.grid((-3, 0, 4)), C.grid((-9, 0, 9)))
    rng = ctx.rng
    for n in (1, 2, 3, 4, 5):
        for lo, hi, form in (([-1], [1], 'scalar'), ([], [-2], 'list'), ([2], [], 'array'), ([-3], [-1], 'int'), ([1], [3], 'jnp')):
            out.append(casc(f'own{n}_{lo}_{hi}', [mk[(i + n) % len(mk)](i) for i in range(n)], lo, hi, form=form, only=['bounds'],
                            ops=fs + [C.enable(False), C.enable(True), C.RESET, sub(rng.randint(1, n), C.enable(False))]))
    inner = casc('in', [mk[0](0), mk[1](1)], [-2], [1])
    out.append(casc('own_nest', [mk[4](1), inner, mk[3](2)], [-3], [-1], only=['bounds'], ops=fs + [C.enable(False), C.enable(True), C.RESET]))
    run(ctx, out, 300 if ctx.thorough else 20)
