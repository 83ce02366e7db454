#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decide one property.  Exit 0: held on everything explored; exit 1 with a
VIOLATION line: broken; exit 2: the check itself failed."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = dict(JAX_PLATFORMS='cpu', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(HERE, 'out', 'mpl'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
           PYTHONWARNINGS='ignore')

if os.environ.get('RTA_CHECK_CHILD') != '1':
    os.makedirs(os.path.join(HERE, 'out', 'mpl'), exist_ok=True)
    e = dict(os.environ)
    e.update(ENV)
    e['RTA_CHECK_CHILD'] = '1'
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, os.path.join(HERE, 'lib'))
import traceback  # noqa: E402

import vt  # noqa: E402
import registry  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = vt.Ctx(pid, tier, seed)
    try:
        registry.CHECKS[pid](ctx)
        rc = vt.finish(ctx)
    except vt.Machinery as e:
        print(f'ERROR property={pid}: {e}')
        if ctx.fails:            # a violation was established before the machinery failed
            rc = vt.finish(ctx)
        else:
            rc = 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
