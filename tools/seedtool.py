#!/usr/bin/env python3
"""Authoring and verification of planted bugs (never used by a check).
  seedtool.py make [ID..]            write seeded/<ID>/ from tools/seeds.py (patch made against /repo HEAD)
  seedtool.py verify [ID..]          build, stable tests, demo without/with the patch (scratch copies, private mount of /repo)
  seedtool.py check ID PROP..        run checks against the patched copy
Every run happens in a scratch copy bound over /repo in a private mount namespace."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    sh(f'cp -a /repo {d}/repo')
    return d


def ns(d, script, timeout=1500):
    """run a bash script with d/repo as /repo and a the committed /verif as a private copy"""
    if not os.path.isdir(d + '/verif'):
        os.makedirs(d + '/verif')
        sh(f'git -C {V} archive HEAD | tar -x -C {d}/verif; mkdir -p {d}/verif/out {d}/verif/evidence')
    pre = f'mount --bind {d}/repo /repo && mount --bind {d}/verif {V} && '
    return subprocess.run(['unshare', '-m', 'bash', '-c', pre + script], capture_output=True, text=True, timeout=timeout)


def make(ids):
    import seeds
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids:
            continue
        d = scratch()
        try:
            for f, old, new in s['edits']:
                p = f'{d}/repo/{f}'
                t = open(p).read()
                n = s.get('count', 1)
                assert t.count(old) == n, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh(f'git -C {d}/repo diff').stdout
            o = f'{V}/seeded/{s["id"]}'
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(diff)
            open(o + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves as the property says; nonzero: it does not\n'
                'here="$(cd "$(dirname "$0")" && pwd)"\n'
                'PYTHONPATH="$PWD" JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore exec /opt/venv/bin/python "$here/demo.py"\n')
            open(o + '/demo.py', 'w').write(seeds.HEAD + s['demo'].strip() + '\n')
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
            print('made', s['id'])
        finally:
            shutil.rmtree(d)


def verify1(i):
    d = scratch()
    try:
        o = f'{V}/seeded/{i}'
        shutil.copytree(o, d + '/demo')
        for n in ('patch.diff', 'meta.json'):
            os.remove(f'{d}/demo/{n}')
        clean = ns(d, f'cd /repo && bash {d}/demo/demo.sh', 400)
        a = sh(f'git -C {d}/repo apply {o}/patch.diff')
        if a.returncode:
            return i, f'PATCH FAILS {a.stderr}'
        bad = ns(d, f'cd /repo && bash {d}/demo/demo.sh', 400)
        b = ns(d, 'bash /opt/vp/build.sh', 400)
        t = ns(d, f'bash /opt/vp/test.sh {d}/t.json', 1500)
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        try:
            tj = json.load(open(d + '/t.json'))
            txt = json.dumps(tj)
            passed = tj.get('passed', [])
            miss = [x for x in base if x not in passed]
        except Exception as e:
            miss = [f'{e} {t.stderr[-300:]}']
        ok = clean.returncode == 0 and bad.returncode not in (0, ) and b.returncode == 0 and not miss
        return i, ('OK ' if ok else 'BAD ') + f'clean={clean.returncode} patched={bad.returncode} build={b.returncode} missing={miss} :: {(bad.stdout + bad.stderr)[-160:]!r}' + ('' if clean.returncode == 0 else clean.stdout[-600:] + clean.stderr[-600:])
    finally:
        shutil.rmtree(d)


def check(i, props, tier='quick'):
    d = scratch()
    res = {}
    try:
        a = sh(f'git -C {d}/repo apply {V}/seeded/{i}/patch.diff')
        assert a.returncode == 0, a.stderr
        for p in props:
            r = ns(d, f'cd {V} && VERIF_SEED={os.environ.get("VERIF_SEED", "1")} VERIF_TIER={tier} timeout 900 python3 check.py {p}', 1000)
            tail = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'OK', 'ERROR', '  -'))]
            res[p] = (r.returncode, ' | '.join(t[:230] for t in tail[-3:]) or r.stderr[-300:])
    finally:
        shutil.rmtree(d)
    return res


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(args)
    elif cmd == 'verify':
        ids = args or sorted(os.listdir(f'{V}/seeded'))
        with ThreadPoolExecutor(2) as ex:
            for i, r in ex.map(verify1, ids):
                print(i, r, flush=True)
    elif cmd == 'check':
        i, props = args[0], args[1:]
        for p, (rc, t) in check(i, props).items():
            print(i, p, rc, t, flush=True)
    elif cmd == 'checkall':      # every seed against its own property
        ids = args or sorted(os.listdir(f'{V}/seeded'))
        for i in ids:
            m = json.load(open(f'{V}/seeded/{i}/meta.json'))
            for p, (rc, t) in check(i, [m['property']]).items():
                print(i, p, 'CAUGHT' if rc == 1 else 'missed' if rc == 0 else 'ERROR', t, flush=True)
