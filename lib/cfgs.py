"""Configuration families (what is constructed) and call alphabets (what is called) for the module specification."""
import itertools
import random


def sub(nca=-1, skip=1, least=0, kf=False, kl=False):
    return dict(nca=nca, skip=skip, least=least, kf=kf, kl=kl, set=(nca, skip, least, kf, kl) != (-1, 1, 0, False, False))


def con(t, i=1, lim=0, w=(), bias=0, en=True, a=(0, 1), an=(), bn100=0, slack=0, name=None, **s):
    return dict(name=name or f'{t}{i}', t=t, i=i, w=list(w), lim=lim, bias=bias, en=en, a=list(a), an=list(an), bn100=bn100, slack=slack, sub=sub(**s))


def direct(name, w, b, en=True, wx=(), bx=(), wp=()):
    return dict(name=name, w=list(w), b=b, en=en, wx=[list(r) for r in wx], bx=list(bx), wp=list(wp))


def lin(K, c):
    return dict(t='lin', K=K, c=c, seq=[], mod=1, cs0=0, mem='none')


def pat(seq, n, m, mod=None, cs0=0, mem='arr'):
    return dict(t='pat', K=[[0] * n for _ in range(m)], c=[0] * m, seq=seq, mod=mod or len(seq), cs0=cs0, mem=mem)


def acc(K, c, mod, cs0=0, mem='arr'):
    return dict(t='acc', K=K, c=c, seq=[], mod=mod, cs0=cs0, mem=mem)


def gain(K, c, mod, cs0=0, mem='arr'):
    """feedback whose gain is the memory"""
    return dict(t='gain', K=K, c=c, seq=[], mod=mod, cs0=cs0, mem=mem)


def cfg(name, kind, A, B, cons, mode='ct', c=None, Bx=(), low=(), high=(), bform='list', direct=(), bk=None, win=0, latch=0, eps=100, exc=False,
        jit=True, jitd=None, BS=1, tol=3, ops=(), chkcause=True, chkvals=True, use=None, only=(), sc=0, ts=0, Q=()):
    n, m = len(A), len(B[0])
    names = [k['name'] for k in cons]
    assert len(set(names)) == len(names), names
    return dict(
        name=name, kind=kind, mode=mode, A=A, c=list(c or [0] * n), B=B, Bx=list(Bx), Q=list(Q), low=list(low), high=list(high), bform=bform,
        unames=[dict(lo=f'u{i + 1}_min', hi=f'u{i + 1}_max') for i in range(m)], BS=BS, cons=list(cons), defined=list(cons), sel=use is not None, use=list(use or []), only=list(only), direct=list(direct),
        bk=bk or lin([[0] * n for _ in range(m)], [0] * m), win=win, latch=latch, eps=eps, exc=exc, jit=jit, jitd=jitd or {}, tol=tol,
        ops=list(ops), chkcause=chkcause, chkvals=chkvals, sc=sc, ts=ts
    )


def rescaled(cfgs, rng, n, units=(-8, -20, 6)):
    """the same configurations with another unit of length: what the module decides does not depend on the unit"""
    return [dict(c, name=f"{c['name']}_unit{sc}", sc=sc) for c in some(rng, cfgs, n) for sc in (rng.choice(units), )]


def retimed(cfgs, rng, n, units=(-4, -2, 3)):
    """the same configurations with another unit of time: steps, windows, latches and rates are scaled together"""
    ok = [c for c in cfgs if (c['mode'] != 'dt' or c['kind'] in ('es', 'is', 'da')) and all(q['t'] != 'ho' for q in c['cons'])]
    return [dict(c, name=f"{c['name']}_time{ts}", ts=ts) for c in some(rng, ok, n) for ts in (rng.choice(units), )]


def filt(x, d, h=1, dtm=None):
    return dict(op='filter', x=list(x), h=h, dtm=1000 * h if dtm is None else dtm, d=list(d))


RESET = dict(op='reset')
INFO = dict(op='info')


def enable(v):
    return dict(op='enable', v=v)


def setlim(i, v):
    return dict(op='lim', i=i, v=v)


def setcon(i, v):
    return dict(op='con', i=i, v=v)


def setdlim(i, v):
    return dict(op='dlim', i=i, v=v)


def setdcon(i, v):
    return dict(op='dcon', i=i, v=v)


def update(x):
    return dict(op='update', x=list(x))


def grid(*ranges):
    return list(itertools.product(*ranges))


def filts(xs, ds, hs=(1, ), dtms=None):
    out = []
    for x in xs:
        for d in ds:
            for h in hs:
                if dtms is None:
                    out.append(filt(x, d, h))
                else:
                    out += [filt(x, d, h, dtm) for dtm in dtms]
    return out


def some(rng, seq, n):
    seq = list(seq)
    return seq if len(seq) <= n else rng.sample(seq, n)


def rint(rng, lo, hi):
    return rng.randint(lo, hi)


# ------------------------------------------------------------------ random plants / constraints
def rand_plant(rng, n, m, amax=1, bmax=1):
    A = [[rint(rng, -amax, amax) for _ in range(n)] for _ in range(n)]
    B = [[rint(rng, -bmax, bmax) for _ in range(m)] for _ in range(n)]
    for j in range(m):
        if all(B[r][j] == 0 for r in range(n)):
            B[rint(rng, 0, n - 1)][j] = 1
    c = [rint(rng, -1, 1) for _ in range(n)]
    return A, B, c


def rand_con(rng, n, k, lims=3, mag=True, biases=(0, 0, -1, 1), alphas=((0, 1), ), ans=((), ), bn=(0, )):
    t = rng.choice(['max', 'min', 'lin'] + (['mag'] if mag else []))
    i = rint(rng, 1, n)
    w = [rint(rng, -1, 1) for _ in range(n)]
    if t == 'lin' and not any(w):
        w[i - 1] = 1
    lim = dict(max=rint(rng, 0, lims), min=-rint(rng, 0, lims), mag=rint(rng, 1, lims), lin=rint(rng, 0, lims))[t]
    return con(t, i, lim, w=w if t == 'lin' else [], bias=rng.choice(biases), a=rng.choice(alphas), an=rng.choice(ans), bn100=rng.choice(bn), name=f'c{k}_{t}{i}')
