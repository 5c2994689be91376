"""Harness shared by all checks: tiers, work distribution, evidence, violations, driving the tools."""
import contextlib
import importlib
import io
import json
import multiprocessing
import multiprocessing.connection
import os
import shutil
import sys
import tempfile
import time
import traceback

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('PYGAME_HIDE_SUPPORT_PROMPT', '1')
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)

CORES = min(8, os.cpu_count() or 1)


class Check:
    """Collects what one check covered and what went wrong."""

    def __init__(self, prop, level, tier, technique_rule):
        self.prop, self.level, self.tier = prop, level, tier
        self.rule = technique_rule
        self.t0 = time.time()
        self.counts = {}
        self.samples = []
        self.violations = []
        self.parts = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def part(self, name, **kw):
        d = self.parts.setdefault(name, {})
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, data=None):
        self.violations.append((what, data))

    def absorb(self, res):
        """Merge a worker result: dict(counts=..., part=(name, dict), samples=[...], violations=[(what, data)])"""
        self.add(**res.get('counts', {}))
        if 'part' in res:
            self.part(res['part'][0], **res['part'][1])
        for s in res.get('samples', []):
            self.sample(s)
        for v in res.get('violations', []):
            self.violations.append(tuple(v))

    def finish(self, assumptions=()):
        wall = time.time() - self.t0
        known = load_known(self.prop)
        reported, listed = [], []
        for what, data in self.violations:
            for key in known:
                if key in what:
                    listed.append(what)
                    break
            else:
                reported.append((what, data))
        cov = dict(self.counts)
        cov['samples'] = self.samples or ['(none)']
        cov['rule'] = self.rule
        cov['exhaustive'] = True
        if self.parts:
            cov['parts'] = self.parts
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=self.level,
                  coverage=cov, assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(reported))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for what in sorted(set(listed)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what.splitlines()[0][:300]))
        print('%s %s: %s wall=%.1fs' % (self.prop, self.tier, ' '.join('%s=%s' % kv for kv in sorted(self.counts.items())), wall))
        if reported:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s.json' % self.prop)
            with open(path, 'w') as f:
                json.dump([dict(what=w, data=d) for w, d in reported[:50]], f, indent=1, default=str)
            for what, _ in reported[:5]:
                print('  ' + what.replace('\n', '\n  ')[:3000])
            print('%d violation(s)' % len(reported))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0


def load_known(prop):
    """Keys (substrings of a violation text) of findings recorded as known, not repaired."""
    keys = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % prop):
                keys.append(line.split(' ', 2)[2].split(' -- ')[0].strip())
    return keys


# -- distributing work ---------------------------------------------------------------------------

def _guard(args):
    func, item = args
    try:
        return func(item)
    except BaseException as e:              # raised by the code under test on an input of its domain
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(violations=[('%s raised %s: %s\n%s' % (getattr(func, '__name__', func), type(e).__name__, e, traceback.format_exc(limit=-6)),
                                 repr(item)[:2000])])


def _worker(func, items, conn):
    try:
        while True:
            k = conn.recv()
            if k is None:
                break
            conn.send(_guard((func, items[k])))
    except (EOFError, OSError):
        pass
    finally:
        os._exit(0)


def pmap(func, items, check, procs=None):
    """Run func over items on all cores and absorb every result into the check.
    A worker that dies is reported as a violation on its item."""
    items = list(items)
    procs = min(procs or CORES, max(1, len(items)))
    ctx = multiprocessing.get_context('fork')
    workers = {}
    nxt = 0

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(func, items, there), daemon=False)
        p.start()
        there.close()
        return here, p

    def give(conn, p):
        nonlocal nxt
        if nxt < len(items) and len(check.violations) <= 2000:
            workers[conn] = (p, nxt)
            conn.send(nxt)
            nxt += 1
        else:
            conn.send(None)
            p.join()
            conn.close()
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(procs):
        give(*start())
    while workers:
        for conn in multiprocessing.connection.wait(list(workers)):
            p, k = workers.pop(conn)
            try:
                res = conn.recv()
            except EOFError:
                p.join()
                conn.close()
                check.violation('%s: the process died (exit code %s)' % (func.__name__, p.exitcode), repr(items[k])[:2000])
                if nxt < len(items):
                    give(*start())
                continue
            check.absorb(res)
            give(conn, p)


# -- driving the command line tools in-process ---------------------------------------------------

class ToolError(Exception):
    pass


class Result:
    def __init__(self, out, err, exc):
        self.out, self.err, self.exc = out, err, exc
        self.lines = out.splitlines()

    @property
    def failed(self):
        return self.exc is not None

    def check(self):
        if self.exc is not None:
            raise ToolError('tool failed with %s: %s' % (type(self.exc).__name__, self.exc)) from self.exc
        return self


class _Enough(BaseException):
    pass


class _Limited(io.TextIOWrapper):
    def setup(self, limit):
        self.limit = limit
        return self

    def write(self, text):
        n = super().write(text)
        self.limit -= text.count('\n')
        if self.limit <= 0:
            raise _Enough
        return n


def tool(name, argv, stdin='', cwd=None, limit=None):
    """Run factorio_sat.<name>:main with the given arguments; end of input ends the stream tools.
    With a limit the run is stopped after that many printed lines."""
    mod = importlib.import_module('factorio_sat.' + name)
    out, err = _Limited(io.BytesIO(), encoding='utf-8', newline='\n').setup(limit or float('inf')), io.StringIO()
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd()
    exc = None
    try:
        sys.argv = [name] + [str(a) for a in argv]
        sys.stdin, sys.stdout, sys.stderr = io.StringIO(stdin), out, err
        if cwd:
            os.chdir(cwd)
        try:
            mod.main()
        except (EOFError, _Enough):
            pass
        except SystemExit as e:
            if e.code not in (None, 0):
                exc = e
        except Exception as e:
            exc = e
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old[:4]
        os.chdir(old[4])
    out.flush()
    text = out.buffer.getvalue().decode('utf-8')
    return Result(text, err.getvalue(), exc)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mcverif.')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
