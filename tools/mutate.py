#!/usr/bin/env python3
"""Mutation sweep (authoring aid, never used by a check): apply small syntactic changes to the code under test in scratch
copies and run the mapped checks; prints the survivors.
  mutate.py list                     number of mutants per file
  mutate.py run N SEED OUT [FILE]    N random mutants (of files matching FILE)
"""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/repo/run_time_assurance'
MAP = [
    ('rta/simplex.py', ['C03', 'C04', 'C06', 'C08', 'C07', 'C11', 'C17', 'C02']),
    ('rta/asif.py', ['C09', 'C10', 'C15', 'C20', 'C14', 'C11', 'C17', 'C01', 'C24', 'C07']),
    ('rta/base.py', ['C03', 'C02', 'C12', 'C16', 'C01', 'C13', 'C07', 'C08', 'C11', 'C17']),
    ('controller.py', ['C08', 'C03', 'C14', 'C07', 'C17', 'C24']),
    ('constraint.py', ['C19', 'C09', 'C03', 'C14', 'C15', 'C11', 'C17', 'C23']),
    ('state.py', ['C25']),
    ('utils/utils.py', ['C03', 'C09', 'C23', 'C10', 'C26']),
    ('utils/sample_testing.py', ['C18']),
    ('zoo/cwh/utils.py', ['C23', 'C26', 'C22']),
    ('zoo/cwh/docking', ['C23', 'C05', 'C16', 'C17']),
    ('zoo/integrators', ['C23', 'C05', 'C16', 'C17']),
    ('zoo/cwh/inspection_1v1.py', ['C26', 'C22', 'C13', 'C07', 'C12', 'C16']),
    ('zoo/cwh/inspection_3d.py', ['C26', 'C21', 'C01', 'C07', 'C12']),
]


class Collect(ast.NodeVisitor):
    """edits as (line, col, endline, endcol, new text)"""
    def __init__(self, src):
        self.src, self.out = src, []

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def put(self, n, new):
        if new != self.seg(n):
            self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new))

    def body(self, stmts):
        for i, s in enumerate(stmts):
            if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                self.put(s, 'pass')
            if isinstance(s, (ast.Assign, ast.AugAssign)) and len(stmts) > 1:
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(s, ast.AugAssign):
                    self.put(s, 'pass')
            self.visit(s)

    def visit_FunctionDef(self, n):
        for d in n.args.defaults:
            self.visit(d)
        for d in n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        self.body(n.body)

    def visit_ClassDef(self, n):
        self.body(n.body)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Assert(self, n):
        pass

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and getattr(n.test.left, 'id', '') == '__name__':
            return
        self.visit(n.test)
        self.put(n.test, f'not ({self.seg(n.test)})')
        self.body(n.body)
        self.body(n.orelse)

    def visit_For(self, n):
        self.visit(n.iter)
        self.body(n.body)

    def visit_While(self, n):
        self.body(n.body)

    def visit_Compare(self, n):
        a, b = self.seg(n.left), self.seg(n.comparators[0])
        sw = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.Is: [], ast.IsNot: []}
        for o in sw.get(type(n.ops[0]), []):
            self.put(n, f'{a} {o} {b}')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        a, b = self.seg(n.left), self.seg(n.right)
        sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}
        o = sw.get(type(n.op))
        if o and not isinstance(n.left, (ast.List, ast.JoinedStr)) and not isinstance(n.right, (ast.List, ast.JoinedStr)):
            self.put(n, f'({a} {o} {b})')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.put(n, f'({self.seg(n.operand)})')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ' and ' if isinstance(n.op, ast.Or) else ' or '
        self.put(n, o.join(self.seg(v) for v in n.values))
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value))
        elif isinstance(n.value, int):
            self.put(n, str(n.value + 1))
        elif isinstance(n.value, float):
            self.put(n, str(n.value * 1.5 + .25))

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args[0], n.args[1]
            if type(a) is type(b) and not isinstance(a, ast.Constant):
                s = self.seg(n)
                self.put(n, s.replace(self.seg(a), '\0', 1).replace(self.seg(b), self.seg(a), 1).replace('\0', self.seg(b), 1))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy') and n.args:
            self.put(n, self.seg(n.args[0]))
        sw = {'min': 'max', 'max': 'min', 'minimum': 'maximum', 'maximum': 'minimum', 'sin': 'cos', 'cos': 'sin', 'any': 'all', 'all': 'any', 'ones': 'zeros', 'zeros': 'ones', 'keys': 'values', 'floor': 'ceil', 'argmin': 'argmax', 'argsort': 'sort', 'append': 'insert'}
        if isinstance(n.func, ast.Attribute) and n.func.attr in sw and n.func.attr != 'append':
            self.put(n.func, self.seg(n.func.value) + '.' + sw[n.func.attr])
        self.generic_visit(n)


def mutants():
    out = []
    for f in sorted(glob.glob(ROOT + '/**/*.py', recursive=True)):
        src = open(f).read()
        c = Collect(src)
        c.body(ast.parse(src).body)
        rel = f[len(ROOT) + 1:]
        seen = set()
        for e in c.out:
            if e in seen:
                continue
            seen.add(e)
            out.append((rel, e))
    return out


def apply(src, e):
    l1, c1, l2, c2, new = e
    lines = src.splitlines(keepends=True)
    enc = [x.encode() for x in lines]
    pre = b''.join(enc[:l1 - 1]) + enc[l1 - 1][:c1]
    post = enc[l2 - 1][c2:] + b''.join(enc[l2:])
    return (pre + new.encode() + post).decode()


def checks_of(rel):
    for k, v in MAP:
        if rel.startswith(k):
            return v
    return []


def one(m, vcopy):
    rel, e = m
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        subprocess.run(f'cp -a /repo {d}/repo', shell=True, check=True)
        p = f'{d}/repo/run_time_assurance/{rel}'
        src = open(p).read()
        new = apply(src, e)
        try:
            ast.parse(new)
        except SyntaxError:
            return 'syntax', ''
        open(p, 'w').write(new)
        os.makedirs(d + '/out'), os.makedirs(d + '/ev')
        os.makedirs(vcopy + '/out', exist_ok=True), os.makedirs(vcopy + '/evidence', exist_ok=True)
        pre = f'mount --bind {d}/repo /repo && mount --bind {vcopy} /verif && mount --bind {d}/out /verif/out && mount --bind {d}/ev /verif/evidence && cd /verif && '
        for c in checks_of(rel):
            try:
                r = subprocess.run(['unshare', '-m', 'bash', '-c', pre + f'VERIF_SEED=1 VERIF_TIER=quick timeout 880 python3 check.py {c}'], capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return 'timeout', c
            if r.returncode == 1:
                return 'killed', c
            if r.returncode != 0:
                return 'ERROR', c + ' ' + (r.stdout + r.stderr)[-300:]
        return 'SURVIVED', ''
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ms = [m for m in mutants() if checks_of(m[0])]
    if sys.argv[1] == 'list':
        import collections
        for k, v in sorted(collections.Counter(m[0] for m in ms).items()):
            print(k, v)
        sys.exit()
    n, seed, outp = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    if len(sys.argv) > 5:
        ms = [m for m in ms if sys.argv[5] in m[0]]
    random.Random(seed).shuffle(ms)
    vcopy = tempfile.mkdtemp(prefix='vmut', dir='/tmp')
    subprocess.run(f'git -C {V} archive HEAD | tar -x -C {vcopy}', shell=True, check=True)
    lock = threading.Lock()

    def go(m):
        st, c = one(m, vcopy)
        src = open(f'{ROOT}/{m[0]}').read().splitlines()
        with lock, open(outp, 'a') as h:
            h.write(json.dumps(dict(status=st, by=c, file=m[0], line=m[1][0], edit=m[1], text=src[m[1][0] - 1].strip())) + '\n')
    try:
        with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '3'))) as ex:
            list(ex.map(go, ms[:n]))
    finally:
        shutil.rmtree(vcopy)
