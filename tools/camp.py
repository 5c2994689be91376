"""Runs the existing tests and the checks against changed copies of /repo (development aid, not a registered check).

    camp.py one PATCH PROP...            tests + checks on one patch, in a scratch copy
    camp.py mutants FILE OUT.jsonl N PROP...   N evenly spread operator mutants of factorio_sat/FILE
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8',
           PYGAME_HIDE_SUPPORT_PROMPT='1', SDL_VIDEODRIVER='dummy')
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


class Slot:
    def __init__(self, cores=8):
        self.dir = tempfile.mkdtemp(prefix='camp', dir='/tmp')
        self.repo = self.dir + '/repo'
        self.verif = self.dir + '/verif'
        subprocess.run(['git', 'clone', '-q', '/repo', self.repo], check=True)
        shutil.copytree(HERE, self.verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        p = self.verif + '/mc/common.py'
        s = open(p).read().replace("REPO = '/repo'", 'REPO = %r' % self.repo).replace('CORES = min(8, ', 'CORES = min(%d, ' % cores)
        # fail fast: the first violation settles it
        s = s.replace("        for v in res.get('violations', []):\n            self.violations.append(tuple(v))",
                      "        for v in res.get('violations', []):\n            self.violations.append(tuple(v))\n"
                      "        if self.violations and not load_known(self.prop):\n"
                      "            code = self.finish()\n            sys.stdout.flush()\n"
                      "            import signal\n            signal.signal(signal.SIGTERM, signal.SIG_IGN)\n            os.killpg(0, signal.SIGTERM)\n            os._exit(code)")
        open(p, 'w').write(s)
        s = open('/opt/vp/run_unittest.py').read().replace("ROOT = '/repo'", 'ROOT = %r' % self.repo).replace('TIMEOUT = 120', 'TIMEOUT = 60')
        s = s.replace('WORKERS = 4', 'WORKERS = %d' % max(1, min(4, cores)))
        open(self.dir + '/run_unittest.py', 'w').write(s)

    def tests(self):
        out = self.dir + '/results.txt'
        try:
            subprocess.run([PY, self.dir + '/run_unittest.py', out], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        except subprocess.TimeoutExpired:
            return False
        ok = set()
        for line in open(out):
            verdict, ident = line.rstrip('\n').split(' ', 1)
            if verdict == 'PASS':
                ok.add(ident)
        return STABLE <= ok

    def check(self, prop, limit=900):
        p = subprocess.Popen(['setsid', self.verif + '/run.sh', prop, 'quick'], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            out, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            subprocess.run(['pkill', '-9', '-f', self.verif])
            p.kill()
            return 'TIMEOUT', ''
        if 'VIOLATION property=%s' % prop in out:
            return 'CAUGHT', out
        return ('quiet' if p.returncode == 0 else 'rc%d' % p.returncode), out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def one(patch, props):
    s = Slot()
    try:
        subprocess.run(['git', '-C', s.repo, 'apply', os.path.abspath(patch)], check=True)
        print('tests', s.tests())
        for p in props:
            r, out = s.check(p)
            print(p, r)
            print('\n'.join(out.splitlines()[:40]))
    finally:
        s.close()


# -- operator mutants ---------------------------------------------------------------------------

SWAP = {'Lt': ['<=', '>='], 'LtE': ['<', '>'], 'Gt': ['>=', '<='], 'GtE': ['>', '<'], 'Eq': ['!='], 'NotEq': ['=='], 'Is': ['is not'], 'IsNot': ['is'],
        'In': ['not in'], 'NotIn': ['in']}
NAMES = {'next': 'prev', 'prev': 'next', 'reverse': 'next', 'input_direction': 'output_direction', 'output_direction': 'input_direction',
         'is_underground_in': 'is_underground_out', 'is_underground_out': 'is_underground_in', 'width': 'height', 'height': 'width',
         'colour_ux': 'colour_uy', 'colour_uy': 'colour_ux', 'dx': 'dy', 'dy': 'dx', 'RIGHT': 'LEFT', 'LEFT': 'RIGHT', 'UP': 'DOWN', 'DOWN': 'UP',
         'HORIZONTAL': 'VERTICAL', 'is_splitter_head': 'is_splitter', 'is_belt': 'is_splitter', 'flow': 'diff', 'literals_same': 'literals_different',
         'literals_different': 'literals_same', 'quadratic_one': 'quadratic_amo', 'library_equals': 'library_atleast', 'all': 'any', 'any': 'all',
         'tile00': 'tile01', 'tile01': 'tile00', 'tile10': 'tile11', 'tile11': 'tile10', 'dx0': 'dx1', 'dx1': 'dx0', 'dy0': 'dy1', 'dy1': 'dy0',
         'tile_a': 'tile_b', 'tile_b': 'tile_a', 'direction': 'inv_direction', 'tangent': 'direction', 'in_bit0': 'in_bit1', 'out_bit0': 'out_bit1',
         'in_flow0': 'in_flow1', 'out_flow0': 'out_flow1', 'start': 'end', 'end': 'start', 'min_x': 'min_y', 'max_x': 'max_y'}


def mutants(path):
    """(line, description, new source) for every operator mutant of the file."""
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()))
    raw = src.encode()
    tree = ast.parse(src)

    def pos(node):
        return start[node.lineno - 1] + node.col_offset, start[node.end_lineno - 1] + node.end_col_offset

    out = []

    def rep(node, text, why):
        a, b = pos(node)
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append((node.lineno, why + ': ' + raw[a:b].decode()[:70].replace('\n', ' ') + '  ->  ' + text[:70].replace('\n', ' '), new))

    def seg(node):
        a, b = pos(node)
        return raw[a:b].decode()

    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in [*node.args.args, *node.args.kwonlyargs]:
                if a.annotation:
                    skip |= {id(n) for n in ast.walk(a.annotation)}
            if node.returns:
                skip |= {id(n) for n in ast.walk(node.returns)}
        if isinstance(node, ast.AnnAssign):
            skip |= {id(n) for n in ast.walk(node.annotation)}
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            skip |= {id(n) for n in ast.walk(node)}
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('add_argument', 'ArgumentParser', 'add_parser', 'add_subparsers'):
            skip |= {id(n) for n in ast.walk(node)}
        if isinstance(node, (ast.Assert, ast.Raise)):
            skip |= {id(n) for n in ast.walk(node)}
        if isinstance(node, ast.ClassDef):
            for b in node.bases:
                skip |= {id(n) for n in ast.walk(b)}
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for op in SWAP.get(type(node.ops[0]).__name__, []):
                rep(node, '%s %s %s' % (seg(node.left), op, seg(node.comparators[0])), 'cmp')
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
            op = {'Add': '-', 'Sub': '+', 'Mult': '+', 'FloorDiv': '*', 'Mod': '//'}[type(node.op).__name__]
            if not isinstance(node.left, (ast.List, ast.Constant)) or not isinstance(getattr(node.left, 'value', 0), str):
                rep(node, '%s %s %s' % (seg(node.left), op, seg(node.right)), 'arith')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            rep(node, seg(node.operand), 'sign')
        elif isinstance(node, ast.Constant) and type(node.value) is int:
            rep(node, str(node.value + 1), 'const')
            if node.value > 0:
                rep(node, str(node.value - 1), 'const')
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            rep(node, str(not node.value), 'bool')
        elif isinstance(node, ast.BoolOp):
            rep(node, (' or ' if isinstance(node.op, ast.And) else ' and ').join('(%s)' % seg(v) for v in node.values), 'boolop')
            for k in range(len(node.values)):
                rest = [v for i, v in enumerate(node.values) if i != k]
                rep(node, (' and ' if isinstance(node.op, ast.And) else ' or ').join('(%s)' % seg(v) for v in rest), 'dropcond')
        elif isinstance(node, ast.Attribute) and node.attr in NAMES and isinstance(node.ctx, ast.Load):
            rep(node, '%s.%s' % (seg(node.value), NAMES[node.attr]), 'attr')
        elif isinstance(node, ast.Name) and node.id in NAMES and isinstance(node.ctx, ast.Load):
            rep(node, NAMES[node.id], 'name')
        elif isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) >= 2 and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
            for k in range(len(node.elts)):
                rest = [seg(e) for i, e in enumerate(node.elts) if i != k]
                rep(node, '[%s]' % ', '.join(rest) if isinstance(node, ast.List) else '(%s,)' % ', '.join(rest), 'dropelt')
        elif isinstance(node, ast.If) and not any(id(n) in skip for n in [node.test]):
            rep(node.test, 'False', 'if')
            rep(node.test, 'True', 'if')
        elif isinstance(node, (ast.AugAssign, ast.Expr)) and not (isinstance(node, ast.Expr) and isinstance(node.value, (ast.Constant, ast.Yield))):
            rep(node, 'pass', 'dropstmt')
        elif isinstance(node, (ast.Continue, ast.Break)):
            rep(node, 'pass', 'dropstmt')
    out.sort(key=lambda t: t[0])
    return out


def campaign(file, outpath, n, props, workers=8):
    path = 'factorio_sat/' + file
    ms = mutants('/repo/' + path)
    if n and n < len(ms):
        step = len(ms) / n
        ms = [ms[int(i * step)] for i in range(n)]
    slots = [Slot(cores=1) for _ in range(workers)]
    free = list(slots)
    lock = __import__('threading').Lock()
    done = {}
    if os.path.exists(outpath):
        for line in open(outpath):
            d = json.loads(line)
            done[d['line'], d['what']] = d

    def job(m):
        line, what, new = m
        if (line, what) in done:
            return
        with lock:
            s = free.pop()
        try:
            open(s.repo + '/' + path, 'w').write(new)
            rec = dict(file=file, line=line, what=what)
            if not s.tests():
                rec['result'] = 'tests'
            else:
                rec['result'] = 'SURVIVED'
                rec['checks'] = {}
                for p in props:
                    r, out = s.check(p)
                    rec['checks'][p] = r
                    if r == 'CAUGHT':
                        rec['result'] = 'caught ' + p
                        break
            with lock:
                with open(outpath, 'a') as f:
                    f.write(json.dumps(rec) + '\n')
        finally:
            subprocess.run(['git', '-C', s.repo, 'checkout', '-q', '--', '.'])
            with lock:
                free.append(s)
    try:
        with ThreadPoolExecutor(workers) as ex:
            for f in [ex.submit(job, m) for m in ms]:
                f.result()
    finally:
        for s in slots:
            s.close()


if __name__ == '__main__':
    if sys.argv[1] == 'one':
        one(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == 'count':
        for f in sys.argv[2:]:
            print(f, len(mutants('/repo/factorio_sat/' + f)))
    else:
        campaign(sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5:])
