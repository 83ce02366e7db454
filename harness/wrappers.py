"""State wrappers driven through their public properties."""
import jax.numpy as jnp
import numpy as np

from toys import call
from run_time_assurance.zoo.cwh.docking_2d import Docking2dState
from run_time_assurance.zoo.cwh.docking_3d import Docking3dState
from run_time_assurance.zoo.cwh.inspection_1v1 import Inspection3dState
from run_time_assurance.zoo.integrators.integrator_1d import Integrator1dDockingState

CLS = {'int1d': Integrator1dDockingState, 'dock2d': Docking2dState, 'dock3d': Docking3dState, 'insp3d': Inspection3dState}


def sc(v):
    return [int(round(float(a) * 100)) for a in np.array(v).ravel()]


def run(job):
    cfg, ops = job
    cls = CLS[cfg['cls']]
    form = cfg['form']
    caller = [jnp.array(cfg['init'], dtype=float) if form == 'jnp' else np.array(cfg['init'], dtype=np.float32 if form == 'f32' else float)]
    w = [cls(caller[0]), cls(caller[0])]
    evs = []
    for op in [{'op': 'look'}] + ops:
        def act():
            if op['op'] == 'set':
                setattr(w[op['k'] - 1], cfg['names'][op['i'] - 1], float(op['v']))
            elif op['op'] == 'caller':
                if form == 'jnp':
                    caller[0] = jnp.full(len(cfg['init']), float(op['v']))
                else:
                    caller[0][:] = op['v']
            elif op['op'] == 'fork':
                w[1] = cls(w[0].vector)
            return dict(caller=sc(caller[0]), vec=[sc(a.vector) for a in w],
                        got=[[dict(n=nm, v=sc(getattr(a, nm))[0]) for nm in cfg['names']] for a in w], size=[int(a.size) for a in w], len=[len(a) for a in w])
        status, rec = call(act)
        evs.append(dict(op, status=status, **(rec or {})))
    return evs
