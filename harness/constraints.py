"""The constraint library driven directly."""
import jax.numpy as jnp
import numpy as np

from toys import call
from run_time_assurance.constraint import (
    ConstraintMagnitudeStateLimit, ConstraintMaxStateLimit, ConstraintMinStateLimit, ConstraintModule, HOCBFConstraint,
    PolynomialConstraintStrengthener
)

LIM = {'max': ConstraintMaxStateLimit, 'min': ConstraintMinStateLimit, 'mag': ConstraintMagnitudeStateLimit}


def sc(v, k):
    v = float(v) * k
    return int(np.clip(round(v), -2**31 + 1, 2**31 - 1)) if np.isfinite(v) else 2**31 - 1


def poly(terms, z):
    out = 0.
    for t in terms:
        m = float(t['c'])
        for zi, e in zip(z, t['e']):
            for _ in range(e):
                m = m * zi
        out = out + m
    return out


class PolyConstraint(ConstraintModule):
    def __init__(self, terms, n, **kw):
        self.terms, self.n = terms, n
        super().__init__(**kw)

    def _compute(self, state, params):
        return poly(self.terms, [state[i] for i in range(self.n)] + [params['limit_val']])


def build(c):
    if c['kind'] == 'alpha':
        return PolynomialConstraintStrengthener([v / 10000. for v in c['a']] if c['given'] else None)
    if c['kind'] == 'limit':
        kw = {}
        if c['a'] or c['given']:
            kw['alpha'] = PolynomialConstraintStrengthener([v / 10000. for v in c['a']])
        if c['an']:
            kw['alpha_negative'] = PolynomialConstraintStrengthener([v / 10000. for v in c['an']])
        if c['b100']:
            kw['bias'] = c['b100'] / 100.
        if not c['en']:
            kw['enabled'] = False
        if not c['jit']:
            kw['jit_enable'] = False
        return LIM[c['t']](c['lim'] / 4., c['i'] - 1, **kw)
    kw = {'bias': float(c['bias']), 'jit_enable': c['jit']}
    if c['base'] == 'poly':
        base = PolyConstraint(c['poly'], c['n'], params={'limit_val': float(c['lim'])}, **kw)
    else:
        base = LIM[c['base']](float(c['lim']), c['i'] - 1, **kw)
    return HOCBFConstraint(
        base, c['r'], lambda x: jnp.array([poly(t, [x[i] for i in range(c['n'])] + [0.]) for t in c['drift']]),
        PolynomialConstraintStrengthener([float(v) for v in c['a']]), bias=float(c['obias']), jit_enable=c['jit'], **({} if c['en'] else {'enabled': False})
    )


def run(job):
    c, ops = job
    status, con = call(lambda: build(c))
    evs = [{'op': 'construct', 'status': status}]
    if con is None:
        return evs
    k = 4. if c['kind'] == 'limit' else 1.
    vs = {'limit': 400, 'hocbf': 1000}.get(c['kind'], 0)
    gs = 4 if c['kind'] == 'limit' else 1000
    for n, op in enumerate(ops):
        def act():
            if op['op'] == 'set':
                if n % 2:
                    con.params['limit_val'] = op['l'] / k
                else:
                    con.params = {'limit_val': op['l'] / k}
                return {}
            if op['op'] == 'alpha':
                v = op['v'] / 2.
                v = [v, jnp.float32(v), np.float64(v)][n % 3]
                if c['kind'] == 'alpha':
                    return dict(val=sc(con(v), 10000 * 2**c['deg']), neg=0)
                return dict(val=sc(con.alpha(v), 10000 * 2**c['deg']), neg=sc(con.alpha_negative(v), 10000 * 2**c['deg']))
            x = np.array(op['x'], dtype=float) / k
            if n % 2:
                x = jnp.array(x)
            v = float(con(x, con.params) if n % 3 else con.compute(x, con.params))
            return dict(val=sc(v, vs), nn=v >= 0, phi=sc(con.phi(x, con.params), vs), grad=[sc(g, gs) for g in np.array(con.grad(jnp.array(x, dtype=float), con.params))])
        status, rec = call(act)
        evs.append(dict(op, status=status, **(rec or {})))
    return evs
