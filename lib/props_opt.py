"""Optimization (QP and discrete) properties."""
import cfgs as C
import core
from props_switch import ONE, DBL, TWO, rand_bounds, rand_bk

ALPHAS = ((0, 1), (0, 2), (0, 1, 0, 1), (0, 3))
ANS = ((), (0, 5), (0, 2))


def ea_hand():
    out = []
    out.append(C.cfg('ea_box', 'ea', *ONE, [C.con('max', 1, 3, a=(0, 2)), C.con('min', 1, -3, a=(0, 1), an=(0, 4))], low=[-4], high=[4], bform='scalar',
                     ops=C.filts(C.grid(range(-4, 5)), C.grid(range(-6, 7, 2)))))
    out.append(C.cfg('ea_bneg', 'ea', *ONE, [C.con('max', 1, 2, bn100=-1)], BS=100, low=[-40], high=[40], bform='array', ops=C.filts(C.grid(range(-1, 6)), C.grid((-30, -10, 0, 3, 30)))))
    out.append(C.cfg('ea_two', 'ea', *TWO, [C.con('max', 1, 2), C.con('lin', 1, 3, w=[-1, -1], name='sum'), C.con('mag', 2, 2, a=(0, 1, 0, 1))], low=[-4, -3], high=[3, 5],
                     ops=C.filts(C.grid((-1, 0, 1, 2), (-2, 0, 1, 2)), C.grid((-5, 0, 2, 6), (-4, 0, 3)))))
    out.append(C.cfg('ea_direct', 'ea', *TWO, [C.con('max', 1, 2, a=(0, 2)), C.con('max', 2, 2, bias=-1)], low=[-5, -5], high=[5, 5], bform='scalar',
                     direct=[C.direct('sum', [1, 1], -2), C.direct('half', [-1, 2], -3, en=False), C.direct('cap', [0, -1], -2)],
                     ops=C.filts(C.grid((0, 2, 3), (-1, 2)), C.grid((-5, -1, 0, 4), (-3, 0, 4))) + [C.setdcon(2, True), C.setdcon(2, False), C.setdlim(1, 0), C.setdlim(1, -2)]))
    out.append(C.cfg('ea_nobounds', 'ea', *DBL, [C.con('lin', 1, 4, w=[-1, -1], name='brake', a=(0, 1)), C.con('max', 2, 3)], c=[0, 1],
                     ops=C.filts(C.grid((-2, 0, 2, 4), (-3, 0, 1, 3, 4)), C.grid((-5, 0, 1, 5)))))
    out.append(C.cfg('ea_lowonly', 'ea', *TWO, [C.con('max', 1, 1), C.con('min', 2, 0)], low=[-1, -2], ops=C.filts(C.grid((0, 1), (0, 2)), C.grid((-3, 0, 3), (-3, 0, 3)))))
    out.append(C.cfg('ea_highonly', 'ea', *TWO, [C.con('min', 1, -1), C.con('min', 2, -1)], high=[1, 2], bform='array', ops=C.filts(C.grid((-1, 0), (-1, 1)), C.grid((-3, 0, 3), (-3, 0, 3)))))
    for bn in (50, 200):
        out.append(C.cfg(f'ea_bpos{bn}', 'ea', *ONE, [C.con('max', 1, 2, bn100=bn, an=(0, 1)), C.con('min', 1, -3, an=(0, 3), bn100=-bn)], BS=100, low=[-9], high=[9], ops=C.filts(C.grid(range(-6, 6)), C.grid((-8, -1, 0, 3, 8)))))
    # control-dependent input matrix
    out.append(C.cfg('ea_gx', 'ea', [[0, 1], [0, 0]], [[0, 1], [1, 0]], [C.con('max', 2, 3), C.con('lin', 1, 3, w=[1, -1], name='mix', a=(0, 2))],
                     Bx=[[[0, 1], [0, 0]], [[0, 0], [1, 0]]], low=[-4, -4], high=[4, 4], bform='scalar',
                     ops=C.filts(C.grid((-2, 0, 1, 2), (-2, 0, 1, 3)), C.grid((-5, 0, 3), (-2, 0, 5)))))
    # intervention threshold
    out.append(C.cfg('ea_eps', 'ea', *ONE, [C.con('max', 1, 2)], eps=20000, low=[-9], high=[9], ops=C.filts(C.grid((0, 1, 2)), C.grid(range(-2, 9)))))
    out.append(C.cfg('ea_eps2', 'ea', *TWO, [C.con('max', 1, 2), C.con('max', 2, 2)], eps=30000, low=[-9, -9], high=[9, 9], bform='scalar', ops=C.filts(C.grid((0, 2), (0, 2)), C.grid((0, 3, 4, 6), (0, 2, 5)))))
    out.append(C.cfg('ea_nojit', 'ea', *TWO, [C.con('max', 1, 2, bias=-1), C.con('mag', 2, 2)], low=[-3, -3], high=[3, 3], jit=False, direct=[C.direct('sum', [1, 1], -3)],
                     ops=C.filts(C.grid((0, 1, 2), (-1, 2)), C.grid((-4, 0, 4), (-2, 5)))))
    return out


NIL = [[0, 1], [0, 0]]


THREE = [[[0] * 3 for _ in range(3)], [[int(i == j) for j in range(3)] for i in range(3)]]


def three(kind):
    """three controls: up to three limits bind together"""
    tol = 60 if kind == 'da' else 3
    cons = [C.con('max', 1, 2), C.con('lin', 1, 4, w=[-1, -1, -1], name='sum'), C.con('lin', 1, 3, w=[1, -1, 1], name='mix', a=(0, 2)), C.con('max', 3, 2)]
    ops = C.filts([(0, 0, 0), (2, 0, 1), (1, 2, 2), (-1, 3, 2)], [(-5, 0, 6), (6, 6, 6), (0, 0, 0), (4, -3, 5), (-2, 7, 1), (7, 5, -6)])
    dirs = [C.direct('cap', [-1, 1, 0], -4)] if kind in ('ea', 'ia') else []
    out = [C.cfg(f'th_{kind}', kind, *THREE, cons, low=[-4, -4, -3], high=[3, 5, 4], win=1000, bk=C.lin([[0] * 3] * 3, [-1, 0, -1]), tol=tol, direct=dirs, ops=ops)]
    # coasting backup on a chain: the same constraint binds at several points, others in between
    if kind == 'ia':
        A = [[0, 1, 0], [0, 0, 1], [0, 0, 0]]
        B = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        for j, s in enumerate(({}, dict(least=2), dict(skip=2, kl=True))):
            out.append(C.cfg(f'th_ia_chain{j}', 'ia', A, B, [C.con('max', 1, 3, **s), C.con('max', 2, 2), C.con('max', 3, 2)], low=[-9, -9, -9] if j else [], high=[9, 9, 9] if j else [], win=2000, bk=C.lin([[0] * 3] * 3, [0, 0, 0]),
                             ops=C.filts([(0, 0, 0), (1, 1, 0), (2, 0, 1), (3, -2, 1), (-2, 2, 2)], [(6, 6, 6), (8, 2, -4), (2, 9, 3), (9, -3, 9), (-4, 3, 8), (9, 9, 0)])))
    return out


def curved(kind):
    """plants with quadratic drift and state-dependent input matrix, constraints whose gradient depends on the parameter,
    direct inequalities that depend on state and parameter"""
    tol = 60 if kind == 'da' else 3
    cons = [C.con('max', 1, 4, a=(0, 2)), C.con('scl', 5, 2, w=[-1, -1], name='scl')]
    if kind in ('ea', 'es', 'is'):
        cons.append(C.con('mag', 2, 3))
    ops = C.filts(C.grid((-1, 0, 1, 2), (-1, 0, 1)), C.grid((-5, 0, 6))) + [C.setlim(2, 1), C.setlim(2, 2), C.setlim(1, 2), C.setlim(1, 4), C.RESET]
    Q = [[[0, 0], [0, 1]], [[1, -1], [0, 0]]]
    Bx = [[[1], [0]], [[0], [1]]]
    bk = C.lin([[0, -1]], [1])
    dirs = [] if kind not in ('ea', 'ia') else [C.direct('follow', [1], -3, wx=[[1], [0]], bx=[1, -1]), C.direct('par', [1], -2, wp=[1])]
    dops = [] if kind not in ('ea', 'ia') else [C.setdlim(2, -3), C.setdlim(2, -2), C.setdcon(1, False), C.setdcon(1, True)]
    kw = dict(low=[-4], high=[5], win=2000, bk=bk, tol=tol)
    out = [C.cfg(f'cv_{kind}_q', kind, NIL, [[0], [1]], cons, Q=Q, ops=ops, **kw),
           C.cfg(f'cv_{kind}_b', kind, NIL, [[0], [2]], cons, Bx=Bx, ops=ops, **kw),
           C.cfg(f'cv_{kind}_qb', kind, NIL, [[1], [1]], cons, c=[1, 0], Q=Q, Bx=Bx, jit=False, ops=ops, **dict(kw, win=1000)),
           C.cfg(f'cv_{kind}_two', kind, *TWO, cons, Bx=[[[0, 1], [0, 0]], [[0, 0], [1, 0]]], Q=[[[0, 1], [0, 0]], [[0, 0], [0, -1]]],
                 ops=C.filts(C.grid((-1, 0, 1, 2), (-1, 0, 1)), C.grid((-5, 0, 6), (-4, 3))) + [C.setlim(2, 1), C.setlim(2, 2)], **dict(kw, low=[-4, -3], high=[5, 4], bk=C.lin([[-1, 0], [0, 0]], [0, -1]), win=1000))]
    # a position limit of relative degree two
    for j, a in enumerate(((0, 1), (0, 2), (0, 1, 0, 1))):
        if j < 2 or kind in ('ea', 'es', 'is'):
            out.append(C.cfg(f'cv_{kind}_ho{j}', kind, NIL, [[0], [1]], [C.con('ho', 1, 3, w=[0, 1], a=a, bias=-j % 2, name='ho'), C.con('min', 2, -3)], jit=j != 1,
                             ops=C.filts(C.grid((-2, 0, 2, 3, 4), (-2, 0, 1, 3)), C.grid((-5, 0, 6))) + [C.setlim(1, 2), C.setlim(1, 3), C.setcon(1, False), C.setcon(1, True), C.INFO], **dict(kw, low=[-20], high=[20])))
    if dirs:
        out.append(C.cfg(f'cv_{kind}_d', kind, NIL, [[0], [1]], cons[:1], direct=dirs, ops=ops[:-5] + dops, **kw))
    if kind in ('ia', 'da'):
        # the library integrates the plant itself (exact flow: A A = 0)
        for j, (h, w) in enumerate(((2, 4000), (4, 8000))):
            out.append(C.cfg(f'cv_{kind}_ode{j}', kind, NIL, [[0], [1]], [C.con('max', 1, 9), C.con('min', 1, -9, a=(0, 2)), C.con('max', 2, 3)], mode='ode', c=[1, -1] if j else None,
                             ops=C.filts(C.grid((-8, -2, 0, 3, 7), (-2, 0, 1, 2)), C.grid((-5, -1, 0, 3)), hs=(h, )), **dict(kw, win=w, bk=C.lin([[0, 0]], [-1]))))
    return out


def one_sided():
    """implicit module with bounds on one side only"""
    bk = C.lin([[0, 0], [0, 0]], [0, 0])
    ops = C.filts(C.grid((-1, 0, 1), (-1, 1)), C.grid((-5, 0, 4), (-4, 0, 5)))
    return [C.cfg('ia_lowonly', 'ia', *TWO, [C.con('max', 1, 1), C.con('min', 2, -1)], low=[-2, -3], win=1000, bk=bk, ops=ops),
            C.cfg('ia_highonly', 'ia', *TWO, [C.con('max', 1, 1), C.con('min', 2, -1)], high=[3, 2], win=1000, bk=bk, ops=ops),
            C.cfg('ia_lowonly1', 'ia', *ONE, [C.con('max', 1, 2)], low=[-1], bform='scalar', win=1000, bk=C.lin([[0]], [-1]), direct=[C.direct('d1', [-1], -2)], ops=C.filts(C.grid((-2, 0, 1, 2)), C.grid((-4, 0, 5)))),
            C.cfg('ia_highonly1', 'ia', *ONE, [C.con('min', 1, -2)], high=[1], bform='scalar', win=1000, bk=C.lin([[0]], [1]), ops=C.filts(C.grid((-2, 0, 1, 2)), C.grid((-4, 0, 5))))]


def ea_rand(rng, k, feasible=True, direct=True):
    nx, m = rng.choice([(1, 1), (2, 1), (2, 2), (2, 2), (3, 2)])
    A, B, c = C.rand_plant(rng, nx, m)
    cons = [C.rand_con(rng, nx, i, lims=3, alphas=ALPHAS, ans=ANS, bn=(0, 0, -100, 100)) for i in range(rng.randint(1, 3))]
    for q in cons:
        if rng.random() < .1:
            q['en'] = False
    low, high = rand_bounds(rng, m, p=.7, hi=6)
    dirs = []
    if direct and rng.random() < .4:
        w = [rng.randint(-2, 2) for _ in range(m)]
        if any(w):
            dirs.append(C.direct('dir1', w, -rng.randint(0, 6)))
    Bx = []
    if rng.random() < .3:
        Bx = [[[rng.choice([0, 0, 1, -1]) for _ in range(m)] for _ in range(nx)] for _ in range(nx)]
    xs = C.some(rng, C.grid(*[range(-2, 4)] * nx), 16)
    ds = C.some(rng, C.grid(*[range(-6, 7)] * m), 7)
    return C.cfg(f'ea_r{k}', 'ea', A, B, cons, c=c, Bx=Bx, low=low, high=high, bform=rng.choice(['list', 'array', 'scalar', 'int']), direct=dirs,
                 jit=rng.random() < .85, eps=rng.choice([100, 100, 10000]), ops=C.filts(xs, ds))


def c09(ctx):
    n = 50 if ctx.thorough else 10
    small = [c for c in ea_hand() if not c['Bx'] and all(len(q['a']) <= 2 and len(q['an']) <= 2 and q['t'] != 'mag' for q in c['cons'])]
    small = [dict(c, name=f"{c['name']}_unit{sc}", sc=sc) for k, c in enumerate(small) for sc in ((-8, -12)[k % 2], )]
    core.replay(ctx, C.retimed(ea_hand() + curved('ea'), ctx.rng, 8) + small + ea_hand() + curved('ea') + three('ea') + [ea_rand(ctx.rng, k) for k in range(n)])


def c20(ctx):
    rng = ctx.rng
    out = [c for c in ea_hand() if c['name'] in ('ea_two', 'ea_direct', 'ea_lowonly', 'ea_highonly', 'ea_nobounds')]
    # infeasible steps between feasible ones; ties between coinciding rows
    out.append(C.cfg('cz_inf', 'ea', *ONE, [C.con('max', 1, 1), C.con('min', 1, -1), C.con('max', 1, 1, name='dup')], low=[-1], high=[1], ops=C.filts(C.grid((-3, -1, 0, 1, 3)), C.grid((-2, 0, 2))) + [C.RESET]))
    out.append(C.cfg('cz_en', 'ea', *TWO, [C.con('max', 1, 1), C.con('max', 2, 1), C.con('lin', 1, 1, w=[-1, -1], name='sum')], low=[-3, -3], high=[3, 3], direct=[C.direct('d1', [-1, 0], -2), C.direct('d2', [0, -1], -1)],
                     ops=C.filts(C.grid((0, 1), (0, 1)), C.grid((-4, 0, 3), (-4, 0, 3))) + [C.setcon(1, False), C.setcon(1, True), C.setdcon(1, False), C.setdcon(1, True)]))
    # implicit: rows repeat a constraint for several points, with and without subsampling
    for nm, s in (('all', {}), ('skip', dict(nca=1, skip=2)), ('least', dict(least=2, kf=True, kl=True))):
        out.append(C.cfg(f'cz_ia_{nm}', 'ia', *ONE, [C.con('max', 1, 3, **s), C.con('min', 1, -3, **s)], low=[-3], high=[2], win=2000, bk=C.lin([[-1]], [0]),
                         direct=[C.direct('d1', [-1], -1)] if nm != 'skip' else [], ops=C.filts(C.grid((-3, -1, 0, 2, 3)), C.grid((-4, 0, 1, 4))) + [C.RESET]))
    out += [c for kind in ('ea', 'ia') for c in curved(kind) if c['name'].endswith(('_b', '_d', '_two'))] + three('ea') + three('ia') + one_sided()
    for k in range(30 if ctx.thorough else 6):
        out.append(ea_rand(rng, k))
    core.replay(ctx, out)


def c10(ctx):
    rng = ctx.rng
    out = []
    for exc in (False, True):
        out.append(C.cfg(f'inf_{exc}', 'ea', *ONE, [C.con('max', 1, 2), C.con('min', 1, -2, a=(0, 1), an=(0, 3))], low=[-2], high=[2], bform='scalar', exc=exc,
                         ops=C.filts(C.grid(range(-6, 7)), C.grid((-5, -1, 0, 3))) + [C.RESET]))
        out.append(C.cfg(f'inf2_{exc}', 'ea', *TWO, [C.con('max', 1, 0), C.con('min', 1, 2), C.con('max', 2, 1)], low=[-3, -3], high=[3, 3], exc=exc,
                         ops=C.filts(C.grid((-2, 0, 1, 3), (0, 1, 3)), C.grid((-4, 0, 4), (0, 5))) + [C.setcon(1, False), C.setcon(1, True)]))
        out.append(C.cfg(f'inf_dir_{exc}', 'ea', *ONE, [C.con('max', 1, 2)], direct=[C.direct('push', [1], 3)], exc=exc,
                         ops=C.filts(C.grid((-3, 0, 2)), C.grid((-1, 0, 5))) + [C.setdlim(1, -1), C.setdlim(1, 3), C.setdcon(1, False), C.setdcon(1, True)]))
        out.append(C.cfg(f'inf_ia_{exc}', 'ia', *ONE, [C.con('max', 1, 2), C.con('min', 1, -2)], low=[-1], high=[1], win=2000, bk=C.lin([[-1]], [0]), exc=exc,
                         ops=C.filts(C.grid((-5, -2, 0, 1, 2, 5)), C.grid((-2, 0, 2)))))
        # the constraint cannot be influenced at all (zero row)
        out.append(C.cfg(f'inf_zero_{exc}', 'ea', [[0, 0], [0, 0]], [[1], [0]], [C.con('max', 2, 2), C.con('max', 1, 3)], c=[0, 1], low=[-3], high=[3], exc=exc,
                         ops=C.filts(C.grid((0, 3), (0, 1, 2, 4)), C.grid((-2, 0, 5)))))
    for k, (s1, s2) in enumerate(((1, 0), (1, 2), (2, 1), (2, 0), (1, 1))):
        cons = [C.con('max', 1, 1, slack=s1), C.con('min', 1, 0, slack=s2, a=(0, 2))]
        if s1 == s2:
            cons = [C.con('max', 1, 1, slack=s1), C.con('max', 1, 0, name='second', bias=-1)]
        out.append(C.cfg(f'slack{k}', 'ea', *ONE, cons, low=[-2], high=[2], tol=400, ops=C.filts(C.grid(range(-4, 6)), C.grid((-3, -1, 0, 2, 4))) + [C.setcon(1, False), C.setcon(1, True)]))
    out.append(C.cfg('slack_three', 'ea', *ONE, [C.con('max', 1, 1, slack=1), C.con('min', 1, 2, name='up', slack=2), C.con('max', 1, 5, name='hard')], low=[-3], high=[3], tol=400,
                     ops=C.filts(C.grid(range(-2, 6)), C.grid((-3, 0, 2, 5)))))
    # the discrete filter; softened constraints after hard ones, and several of them
    for k, (s1, s2, s3) in enumerate(((0, 0, 1), (0, 1, 2), (0, 2, 1), (1, 0, 2), (2, 0, 0), (1, 2, 0))):
        cons = [C.con('max', 1, 5, slack=s1), C.con('max', 1, 1, slack=s2, name='a'), C.con('min', 1, 2, slack=s3, name='b')]
        out.append(C.cfg(f'slack_da{k}', 'da', *ONE, cons, low=[-3], high=[3], tol=300, ops=C.filts(C.grid(range(-3, 6)), C.grid((-3, 0, 2))) + [C.setcon(2, False), C.setcon(2, True)]))
    out.append(C.cfg('slack_dir', 'ea', *ONE, [C.con('max', 1, 1, slack=1)], direct=[C.direct('push', [1], 1)], tol=400, ops=C.filts(C.grid((-1, 0, 1, 3)), C.grid((-2, 0, 4)))))
    for nm, s in (('all', {}), ('sub', dict(nca=1, skip=2, kl=True)), ('least', dict(least=2))):
        out.append(C.cfg(f'slack_ia_{nm}', 'ia', *ONE, [C.con('max', 1, 2, slack=1, **s), C.con('min', 1, -3)], low=[-1], high=[2], win=2000, bk=C.lin([[0]], [-1]), tol=400,
                         ops=C.filts(C.grid((-3, 0, 2, 4)), C.grid((-2, 0, 2)))))
    # several softened constraints, each about a control of its own: each has a slack of its own
    three = [[[0] * 3 for _ in range(3)], [[int(i == j) for j in range(3)] for i in range(3)]]
    for k, sl in enumerate(((1, 1, 1), (1, 2, 1), (0, 1, 2), (2, 0, 1))):
        cons = [C.con('max', 1, 1, slack=sl[0]), C.con('max', 2, 0, slack=sl[1], name='b', a=(0, 2)), C.con('min', 3, -1, slack=sl[2], name='c')]
        kw = dict(low=[-2, -2, -2], high=[2, 2, 2], tol=400, ops=C.filts(C.grid((-3, 0, 4), (-2, 1, 3), (-6, 0)), [(-2, 2, 0), (2, 2, -2), (0, 0, 1)]))
        for kind in ('ia', 'ea', 'da')[:2 if 2 in sl else 3]:      # one scale for the iterative solver
            out.append(C.cfg(f'slack_{kind}3_{k}', kind, *three, cons, win=1000, bk=C.lin([[0] * 3] * 3, [-1, -1, 1]), **kw))
    for k in range(24 if ctx.thorough else 4):
        c = ea_rand(rng, k)
        c['low'], c['high'] = [-2] * len(c['B'][0]), [1] * len(c['B'][0])
        c['exc'] = rng.random() < .5
        out.append(c)
    core.replay(ctx, out)


def ia_configs(ctx, n, subs=True):
    rng = ctx.rng
    out = []
    settings = [{}, dict(nca=2, skip=2), dict(nca=0, skip=3), dict(skip=2, kl=True), dict(least=1), dict(least=2, kf=True), dict(nca=1, skip=2, least=2, kl=True), dict(skip=9, kf=True), dict(nca=9, skip=2), dict(nca=3, skip=1)]
    for k, s in enumerate(settings):
        # coasting backup: the gradient grows along the trajectory, every point gives a different row
        out.append(C.cfg(f'ia_sub{k}', 'ia', *DBL, [C.con('max', 1, 6, **s), C.con('lin', 1, 5, w=[1, 1], name='lin', **s)], low=[-3], high=[3], bform='scalar', win=4000, bk=C.lin([[0, -1]], [0]),
                         ops=C.filts(C.grid((-4, 0, 2, 5), (-2, 0, 1, 3)), C.grid((-4, 0, 4)))))
    out.append(C.cfg('ia_coast', 'ia', *DBL, [C.con('max', 1, 6), C.con('min', 2, -3)], low=[-3], high=[3], win=3000, bk=C.lin([[0, 0]], [-1]), ops=C.filts(C.grid((-2, 0, 3, 5), (-2, 0, 2)), C.grid((-4, 0, 4)))))
    # a coasting plant: sensitivities grow with the length of the trajectory
    out.append(C.cfg('ia_far', 'ia', *DBL, [C.con('max', 1, 90, nca=0, skip=8), C.con('min', 1, -150, nca=0, skip=16, kl=True)], low=[-4], high=[4], win=64000, bk=C.lin([[0, 0]], [0]), ops=C.filts(C.grid((-2, 10, 30), (0, 1)), C.grid((-3, 0, 1, 3)))))
    out.append(C.cfg('ia_step2', 'ia', *ONE, [C.con('max', 1, 9), C.con('min', 1, -9, a=(0, 2))], low=[-8], high=[8], win=4000, bk=C.lin([[0]], [1]), ops=C.filts(C.grid((-9, -2, 0, 4, 9)), C.grid((-9, 0, 6)), hs=(1, 2, 4))))
    out.append(C.cfg('ia_two', 'ia', *TWO, [C.con('max', 1, 4), C.con('lin', 1, 4, w=[-1, 1], name='mix', a=(0, 2), kf=True, least=1)], low=[-4, -3], high=[4, 5], win=2000, bk=C.lin([[-1, 0], [1, -1]], [0, 1]),
                     direct=[C.direct('cap', [-1, -1], -5)], ops=C.filts(C.grid((-2, 1, 4), (-1, 2)), C.grid((-5, 0, 5), (-4, 0, 6)))))
    out.append(C.cfg('ia_mem', 'ia', *ONE, [C.con('max', 1, 4), C.con('min', 1, -4)], low=[-3], high=[3], win=3000, bk=C.pat([[1], [-2], [3]], 1, 1, mod=4, cs0=1, mem='dict'), ops=C.filts(C.grid((-4, -1, 0, 2, 4)), C.grid((-4, 0, 4))) + [C.RESET]))
    out.append(C.cfg('ia_bias', 'ia', *ONE, [C.con('max', 1, 4, bias=-1), C.con('min', 1, -4, bias=1, an=(0, 7), bn100=-100)], low=[-3], high=[3], win=1000, bk=C.lin([[-1]], [0]), ops=C.filts(C.grid(range(-6, 7, 2)), C.grid((-4, 0, 4)))))
    out.append(C.cfg('ia_nojit', 'ia', *DBL, [C.con('max', 1, 6, nca=1, skip=2)], low=[-3], high=[3], win=3000, bk=C.lin([[0, -1]], [0]), jit=False, ops=C.filts(C.grid((0, 3, 5), (0, 2)), C.grid((-4, 0, 4)))))
    # feedback whose gain is the controller's memory: every point has its own closed-loop Jacobian
    for mem, cs0 in (('arr', 0), ('dict', 1)):
        out.append(C.cfg(f'ia_gain_{mem}', 'ia', *DBL, [C.con('max', 1, 6), C.con('lin', 1, 5, w=[1, 1], name='lin')], low=[-3], high=[3], win=3000, bk=C.gain([[0, -1]], [0], 3, cs0=cs0, mem=mem), jit=False,
                         ops=C.filts(C.grid((-4, 0, 2, 5), (-2, 0, 1, 3)), C.grid((-4, 0, 4)))))
        out.append(C.cfg(f'ia_gain1_{mem}', 'ia', *ONE, [C.con('max', 1, 6, kf=True, kl=True, nca=0, skip=2), C.con('min', 1, -6)], low=[-9], high=[9], win=3000, bk=C.gain([[1]], [0], 2 + cs0, cs0=cs0, mem=mem), jit=bool(cs0),
                         ops=C.filts(C.grid(range(-3, 4)), C.grid((-9, 0, 9)))))
    for k in range(n):
        nx, m = rng.choice([(1, 1), (2, 1), (2, 2)])
        A, B, c = C.rand_plant(rng, nx, m)
        cons = []
        for i in range(rng.randint(1, 2)):
            q = C.rand_con(rng, nx, i, lims=5, mag=False, alphas=((0, 1), (0, 2)))
            q['sub'] = C.sub(**rng.choice(settings))
            cons.append(q)
        K = [[rng.randint(-1, 1) for _ in range(nx)] for _ in range(m)]
        low, high = [-rng.randint(1, 4) for _ in range(m)], [rng.randint(1, 4) for _ in range(m)]
        # sensitivities are those of the unlimited controller; keep the trajectory's controller unlimited
        if rng.random() < .5:
            K = [[0] * nx for _ in range(m)]
        bk = C.lin(K, [rng.choice([-1, 0, 1]) for _ in range(m)])
        xs = C.some(rng, C.grid(*[range(-2, 4)] * nx), 8)
        ds = C.some(rng, C.grid(*[range(-5, 6)] * m), 4)
        out.append(C.cfg(f'ia_r{k}', 'ia', A, B, cons, c=c, low=low, high=high, bform=rng.choice(['list', 'array']), win=rng.choice([1000, 2000, 3000]), bk=bk, ops=C.filts(xs, ds)))
    return out


SETTINGS = [{}, dict(nca=2, skip=2), dict(nca=0, skip=3), dict(skip=2), dict(skip=3, kl=True), dict(least=1), dict(least=2, kf=True), dict(least=3), dict(nca=1, skip=2, least=2, kl=True), dict(nca=2, skip=3, least=2, kf=True),
            dict(skip=9, kf=True), dict(nca=9, skip=2), dict(nca=3, skip=1), dict(nca=1, skip=3), dict(nca=4, skip=7, kl=True), dict(least=9, kf=True, kl=True), dict(least=1, kl=True), dict(nca=0, skip=2, kf=True, kl=True)]


def probe(name, s, j, np=5, **kw):
    """which trajectory points are enforced?  Backup trajectory with prescribed values: in the first coordinate point j is the lowest (its row is the tightest
    of the selected ones iff j is selected), in the second coordinate point j is the highest and the strengthener is reversed"""
    other = [[2, 4, 3, 6, 5, 7][(k * k + k // 6) % 6] for k in range(np)] if np > 5 else [2, 4, 3, 6, 5]
    h1 = [0 if k == j else other[k] for k in range(np)]
    h2 = [9 if k == j else other[k] for k in range(np)]
    seq = [[h1[k] - h1[k + 1], h2[k] - h2[k + 1]] for k in range(np - 1)]
    return C.cfg(name, 'ia', *TWO, [C.con('max', 1, h1[0], a=(0, 1), **s), C.con('max', 2, h2[0], a=(0, -1), name='rev', **s)], mode='dt', win=1000 * (np - 1), bk=C.pat(seq + [[0, 0]], 2, 2), ops=C.filts([(0, 0), (1, -1)], [(20, 20), (-20, -20), (0, 20)]), **kw)


LONG = [(14, {}, (6, 13)), (26, dict(nca=10, skip=5), (9, 10, 15, 16, 25)), (26, dict(nca=0, skip=10, kl=True), (10, 20, 24, 25)), (31, dict(nca=3, skip=11), (3, 14, 22, 25)), (41, dict(nca=12, skip=4, least=3), (11, 12, 16, 24, 40)),
        (65, dict(least=12, kf=True, kl=True), (0, 11, 12, 33, 64)), (33, dict(nca=32), (31, 32)), (21, dict(nca=20, skip=1), (19, 20))]


def long_probes(n=None):
    return [probe(f'long{np}_{k}_{j}', s, j, np=np) for k, (np, s, js) in enumerate(LONG) for j in js[:n]]


def c14(ctx):
    ia = ia_configs(ctx, 40 if ctx.thorough else 6)
    core.replay(ctx, C.retimed(ia + curved('ia'), ctx.rng, 7) + ia + curved('ia') + three('ia') + one_sided() + [probe(f'probe_{k}_{j}', s, j) for k, s in enumerate(SETTINGS) for j in range(5)] + long_probes())


def da_configs(ctx, n):
    rng = ctx.rng
    out = []
    t = dict(tol=60)
    out.append(C.cfg('da_box', 'da', *ONE, [C.con('max', 1, 3, a=(0, 1)), C.con('min', 1, -3, a=(0, 2))], low=[-4], high=[4], bform='scalar', ops=C.filts(C.grid(range(-4, 5)), C.grid(range(-6, 7, 2))), **t))
    out.append(C.cfg('da_elem', 'da', *TWO, [C.con('max', 1, 2), C.con('lin', 1, 3, w=[-1, -1], name='sum')], low=[-4, -2], high=[3, 5], bform='list', ops=C.filts(C.grid((-1, 0, 2), (-2, 0, 2)), C.grid((-5, 0, 6), (-4, 0, 3))), **t))
    out.append(C.cfg('da_arr', 'da', *TWO, [C.con('max', 1, 2, bias=-1), C.con('min', 2, -2)], low=[-4, -2], high=[3, 5], bform='array', ops=C.filts(C.grid((-1, 0, 2), (-2, 0, 2)), C.grid((-5, 0, 6), (-4, 0, 3))), **t))
    out.append(C.cfg('da_low', 'da', *ONE, [C.con('max', 1, 3)], low=[-1], bform='scalar', ops=C.filts(C.grid(range(-1, 5)), C.grid((-3, 0, 2, 7))), **t))
    out.append(C.cfg('da_high', 'da', *ONE, [C.con('min', 1, -3)], high=[1], bform='int', ops=C.filts(C.grid(range(-4, 2)), C.grid((-7, 0, 3))), **t))
    out.append(C.cfg('da_steps', 'da', *DBL, [C.con('lin', 1, 6, w=[-1, -1], name='brake'), C.con('max', 2, 3)], low=[-6], high=[6], ops=C.filts(C.grid((-2, 0, 3), (-1, 0, 2, 3)), C.grid((-7, 0, 5)), hs=(1, 2)), **t))
    out.append(C.cfg('da_en', 'da', *ONE, [C.con('max', 1, 3), C.con('max', 1, 1, name='tight', en=False)], low=[-5], high=[5], ops=C.filts(C.grid((-1, 1, 3)), C.grid((-3, 0, 6))) + [C.setcon(2, True), C.setcon(2, False), C.setcon(1, False), C.setcon(1, True), C.setlim(1, 2), C.setlim(1, 3)], **t))
    out.append(C.cfg('da_eps', 'da', *ONE, [C.con('max', 1, 2)], eps=20000, low=[-9], high=[9], ops=C.filts(C.grid((0, 1, 2)), C.grid(range(-2, 9))), **t))
    for exc in (False, True):
        out.append(C.cfg(f'da_inf_{exc}', 'da', *ONE, [C.con('max', 1, 2), C.con('min', 1, -2)], low=[-2], high=[2], bform='scalar', exc=exc, ops=C.filts(C.grid((-6, -3, 0, 2, 6)), C.grid((-2, 0, 1))) + [C.RESET], **t))
    # a plant whose step does not depend on its length: the step's share of the barrier shows
    out.append(C.cfg('da_dt', 'da', *ONE, [C.con('max', 1, 5, a=(0, 1)), C.con('min', 1, -5, a=(0, 2))], mode='dt', BS=4, low=[-9], high=[9], ops=C.filts(C.grid((-5, -4, -1, 0, 2, 4, 5)), C.grid((-9, 0, 2, 8)), dtms=(250, 500, 1000, 2000, 4000)), **t))
    out.append(C.cfg('da_dt2', 'da', *TWO, [C.con('max', 1, 4), C.con('lin', 1, 6, w=[-1, -1], name='sum')], mode='dt', BS=4, low=[-9, -9], high=[9, 9], ops=C.filts(C.grid((-2, 0, 3, 4), (-2, 1, 3)), C.grid((-9, 0, 8), (-3, 6)), dtms=(250, 500, 3000)), **t))
    out.append(C.cfg('da_nojit', 'da', *TWO, [C.con('max', 1, 2), C.con('min', 2, -2)], low=[-4, -4], high=[4, 4], jit=False, ops=C.filts(C.grid((0, 2), (-2, 1)), C.grid((-5, 0, 5), (-5, 2))), **t))
    for k in range(n):
        nx, m = rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
        A, B, c = C.rand_plant(rng, nx, m)
        cons = [C.rand_con(rng, nx, i, lims=4, mag=False, alphas=((0, 1), (0, 2), (0, 1, 0, 1))) for i in range(rng.randint(1, 3))]
        low, high = rand_bounds(rng, m, p=.8, hi=6)
        xs = C.some(rng, C.grid(*[range(-2, 4)] * nx), 10)
        ds = C.some(rng, C.grid(*[range(-5, 6)] * m), 5)
        out.append(C.cfg(f'da_r{k}', 'da', A, B, cons, c=c, low=low, high=high, bform=rng.choice(['list', 'array', 'scalar']), ops=C.filts(xs, ds, hs=(1, 2)), **t))
    return out


def c15(ctx):
    da = da_configs(ctx, 40 if ctx.thorough else 8)
    core.replay(ctx, C.retimed(da + curved('da'), ctx.rng, 7) + [dict(c, name=c['name'] + '_short', ts=-4) for c in da if c['name'] in ('da_dt', 'da_steps')] + da + curved('da') + three('da'))
