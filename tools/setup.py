#!/usr/bin/env python3
"""setup_cmd: nothing to compile; checks that the toolchain the checks need is there and that every specification parses"""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
os.makedirs(os.path.join(V, 'out'), exist_ok=True)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
for need in ('/opt/venv/bin/python', CP.split(':')[0]):
    if not os.path.exists(need):
        print('missing', need); bad = 1
if True:
    for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
        p = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', f], capture_output=True, text=True, cwd=os.path.join(V, 'spec'))
        if p.returncode or 'Error' in p.stdout or 'rror:' in p.stdout:
            print(f, p.stdout[-800:], p.stderr[-400:]); bad = 1
print('setup', 'failed' if bad else 'ok')
sys.exit(bad)
