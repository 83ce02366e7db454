"""Plumbing shared by all checks: running TLC, turning its state graph into call sequences, running the
recorded-execution drivers, evidence, known findings, violations."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from collections import deque
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """the check itself failed (never a verdict about the code)"""


class Ctx:
    """one run of one check"""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(f'{pid}:{seed}')
        self.out = os.path.join(VERIF, 'out', f'{pid}-{tier}')
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.fails = []          # dicts: what, detail
        self.known = []
        self.assumptions = []
        self.n = 0
        self.verdicts = {}

    def path(self, name):
        return os.path.join(self.out, name)

    def log(self, *a):
        print(f'[{time.time() - self.t0:6.1f}s]', *a, flush=True)

    def fail(self, what, **detail):
        self.fails.append(dict(what=what, **detail))


# ------------------------------------------------------------------ TLC
def tlc(ctx, module, cfgtext, env, workers=8, timeout=800, simulate=None, expect_violation=False, heap='4g'):
    """run TLC; returns (json lines printed, stats dict).  Any TLC error is a machinery failure."""
    ctx.n += 1
    wd = ctx.path(f'tlc{ctx.n}-{module}')
    os.makedirs(wd)
    cfg = os.path.join(wd, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write(cfgtext)
    cmd = ['java', f'-Xmx{heap}', '-Xss256m', '-XX:+UseParallelGC', '-cp', TLA_CP, 'tlc2.TLC', '-config', cfg, '-metadir', os.path.join(wd, 'meta'),
           '-workers', str(workers), '-noGenerateSpecTE', '-deadlock', os.path.join(SPEC, module + '.tla')]
    if simulate:
        cmd[cmd.index('-deadlock'):cmd.index('-deadlock')] = simulate
    e = dict(os.environ)
    e.update(env)
    e.pop('JAVA_TOOL_OPTIONS', None)
    out_file = os.path.join(wd, 'out.txt')
    t = time.time()
    with open(out_file, 'w') as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=wd, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise Machinery(f'TLC timeout in {module} after {timeout}s') from ex
    lines, tail = [], deque(maxlen=60)
    gen = dist = None
    with open(out_file, errors='replace') as f:
        for line in f:
            if line.startswith('"['):
                try:
                    lines.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            tail.append(line)
            m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
            if not m:
                m = re.search(r'([\d,]+) states generated', line)
    text = ''.join(tail)
    violated = 'is violated' in text or 'violated' in text and 'Error' in text
    ok = p.returncode == 0 and 'Model checking completed. No error' in text
    if simulate and p.returncode == 0 and 'Error' not in text:
        ok = True
    shutil.rmtree(os.path.join(wd, 'meta'), ignore_errors=True)
    st = dict(generated=gen or 0, distinct=dist or 0, wall=time.time() - t, rc=p.returncode, text=text, dir=wd, violated=violated)
    if not ok and not (expect_violation and violated):
        raise Machinery(f'TLC failed in {module} (rc {p.returncode}); output in {out_file}:\n{text[-3000:]}')
    return lines, st


def dump(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f)
    return path


# ------------------------------------------------------------------ model exploration -> walks
def explore(ctx, cfgs, module='MCModule', invs=('TypeOK', )):
    p = dump(ctx.path(f'cfgs{ctx.n}.json'), cfgs)
    cfgtext = 'SPECIFICATION Spec\n' + ''.join(f'INVARIANT {i}\n' for i in invs)
    lines, st = tlc(ctx, module, cfgtext, {'RTA_CFGS': p})
    graphs = [dict() for _ in cfgs]
    init = [None] * len(cfgs)
    ne = 0
    for ln in lines:
        if ln[0] == 'I':
            init[ln[1] - 1] = ln[2]
        if ln[0] != 'E':
            continue
        _, c, s, k, t, v = ln
        g = graphs[c - 1]
        g.setdefault(s, {})[k - 1] = (t, v)
        ne += 1
    ctx.states += st['distinct']
    ctx.transitions += ne
    if ne != st['generated'] - len(cfgs):
        # lines are printed once per generated successor
        raise Machinery(f'{module}: {ne} transitions printed, {st["generated"] - len(cfgs)} generated')
    ctx.log(f'{module}: {st["distinct"]} states, {ne} transitions, {st["wall"]:.1f}s')
    return graphs, init


def cover_walk(graph, s0, nops, rng, limit=None):
    """a walk from s0 (list of op indices) that takes every transition of the explored graph"""
    todo = {s: list(e.keys()) for s, e in graph.items()}
    for lst in todo.values():
        rng.shuffle(lst)
    left = sum(len(v) for v in todo.values())
    walk, s = [], s0
    while left and (limit is None or len(walk) < limit):
        if todo[s]:
            k = todo[s].pop()
            left -= 1
            walk.append(k)
            s = graph[s][k][0]
            continue
        # shortest path to a state with an untaken transition
        prev, q, goal = {s: None}, deque([s]), None
        while q:
            a = q.popleft()
            if todo[a]:
                goal = a
                break
            for k, (b, _) in graph[a].items():
                if b not in prev:
                    prev[b] = (a, k)
                    q.append(b)
        if goal is None:
            break
        path = []
        a = goal
        while prev[a] is not None:
            path.append(prev[a][1])
            a = prev[a][0]
        walk += reversed(path)
        s = goal
    return walk, left


def random_walk(graph, s0, rng, n):
    walk, s = [], s0
    for _ in range(n):
        k = rng.choice(list(graph[s].keys()))
        walk.append(k)
        s = graph[s][k][0]
    return walk


# ------------------------------------------------------------------ running the real code
def _worker_init():
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    sys.path.insert(0, '/repo')
    sys.dont_write_bytecode = True


def _work(job):
    modname, fn, arg = job
    import importlib
    try:
        m = importlib.import_module(modname)
        return getattr(m, fn)(arg)
    except Exception as e:      # noqa
        import traceback
        return Crash(type(e).__name__, traceback.format_exc())


class Crash:
    """an exception in a driver; from_code: it came out of the code under test"""
    def __init__(self, kind, text):
        self.kind, self.text = kind, text
        self.from_code = '/repo/run_time_assurance' in text


def run_jobs(ctx, modname, fn, args, procs=8, timeout=800):
    """run harness jobs in worker processes; order is kept"""
    t = time.time()
    if not args:
        return []
    with ProcessPoolExecutor(max_workers=min(procs, len(args)), mp_context=mp.get_context('fork'), initializer=_worker_init) as ex:
        futs = [ex.submit(_work, (modname, fn, a)) for a in args]
        res = []
        for f in futs:
            try:
                res.append(f.result(timeout=max(1, timeout - (time.time() - t))))
            except Exception as e:  # noqa
                for p in ex._processes.values():
                    p.kill()
                raise Machinery(f'driver {modname}.{fn} failed: {type(e).__name__}: {e}') from e
    bad = [r for r in res if isinstance(r, Crash)]
    if bad:
        code = [r for r in bad if r.from_code]
        if len(code) == len(bad):      # the code under test raised where it has to work
            ctx.fail(f'the code under test raised {code[0].kind}', driver=f'{modname}.{fn}', trace=code[0].text[-2500:])
        raise Machinery(f'driver {modname}.{fn} failed: {bad[0].text[-2500:]}')
    ctx.log(f'{modname}.{fn}: {len(args)} jobs, {time.time() - t:.1f}s')
    return res


# ------------------------------------------------------------------ trace validation
def validate(ctx, module, data, describe, extra=None, keep=None, env=None):
    """check every trace in data['traces'] (each {'c':.., 'ev': [...]}) with a trace specification.
    Every FAIL line becomes a failure of the check.  describe(trace index, event index, clauses) -> dict"""
    name = f'traces{ctx.n}.json'
    p = dump(ctx.path(name), data)
    lines, st = tlc(ctx, module, 'SPECIFICATION Spec\n', dict({'RTA_TRACES': p}, **(env or {})))
    want = sum(len(t['ev']) + 1 for t in data['traces'])
    fails = [ln for ln in lines if ln[0] == 'FAIL']
    if not fails and st['distinct'] != want:
        raise Machinery(f'{module}: {st["distinct"]} states for {want} expected (trace not consumed)')
    ctx.states += st['distinct']
    ctx.transitions += st['distinct'] - len(data['traces'])
    ctx.traces += len(data['traces'])
    ctx.events += sum(len(t['ev']) for t in data['traces'])
    ctx.log(f'{module}: {len(data["traces"])} traces, {want - len(data["traces"])} events, {len(fails)} rejected, {st["wall"]:.1f}s')
    for _, t, l, clauses in sorted(fails):
        if keep and not keep(t, l, clauses):
            continue
        ctx.fail(f'{module} rejects the recorded execution: {", ".join(clauses)}', clauses=clauses, **describe(t - 1, l - 1, clauses))
    return lines, st


# ------------------------------------------------------------------ findings and result
def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        return json.load(f)


def finish(ctx, level='model_checking'):
    known = [k for k in load_findings()['known'] if k['property'] == ctx.pid]
    left = []
    for f in ctx.fails:
        hit = next((k for k in known if f.get('site') and f['site'] == k['site']), None)
        if hit:
            if hit['site'] not in ctx.known:
                ctx.known.append(hit['site'])
                print(f'KNOWN-FINDING: property={ctx.pid} {hit["what"]}')
        else:
            left.append(f)
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               events_validated=ctx.events, samples=ctx.samples[:6])
    cov.update(ctx.notes)
    if ctx.verdicts:
        cov['filter_transitions_by_expected_outcome'] = ctx.verdicts
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=ctx.assumptions,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(left))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if left:
        rp = ctx.path('violation.json')
        with open(rp, 'w') as f:
            json.dump(left[:50], f, indent=1)
        for f in left[:8]:
            print('  -', f['what'], json.dumps({k: v for k, v in f.items() if k != 'what'})[:1200])
        print(f'VIOLATION property={ctx.pid} replay={rp}')
        return 1
    print(f'OK property={ctx.pid} tier={ctx.tier} states={ctx.states} traces={ctx.traces} events={ctx.events} wall={time.time() - ctx.t0:.1f}s')
    return 0
