"""Runs the real optimiser (calculate_optimal.main) on a made-up world: an oracle decides which sizes are possible, a controlled
executor decides in which order results arrive."""
import concurrent.futures
import contextlib
import io
import itertools
import json
import os
import selectors
import shutil
import sys
import tempfile
import threading
import time

from . import common  # noqa: F401
from .balrun import shipped

from factorio_sat import calculate_optimal as co

TEXTS = {
    '1x1': '-1 0 1 1\n1 1 -1 2\n',
    '1x2': '-1 0 1 1\n',
    '2x2': '0 0 1 1\n',
    '2x1': '0 0 -1 1\n',
    '2x2b': '0 0 1 2\n1 2 3 3\n',
    '3x3': '3 0 1 2\n0 0 1 2\n1 1 3 3\n2 2 3 3\n',
    '1x3': '0 0 1 1\n-1 1 2 2\n-1 1 2 0\n',
}


for _n in ('1x4', '4x1', '3x1'):
    TEXTS[_n] = shipped(_n)
TEXTS['bottle'] = '0 0 -1 1\n-1 1 2 2\n'


def shape(name):
    """(number of splitters, least height)"""
    nodes = [list(map(int, l.split())) for l in TEXTS[name].splitlines()]
    occ = {}
    for a, b, c, d in nodes:
        for q in (a, b):
            occ[q] = occ.get(q, 0) + 1
        for q in (c, d):
            occ[q] = occ.get(q, 0) - 1
    occ.pop(-1, None)
    return len(nodes), max(max(occ.values()), -min(occ.values()))


@contextlib.contextmanager
def world(names, database=None):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='mcverif.', dir=base)
    try:
        os.mkdir(d + '/networks')
        for n in names:
            with open(d + '/networks/' + n, 'w') as f:
                f.write(TEXTS[n])
        if database is not None:
            with open(d + '/db.json', 'w') as f:
                json.dump(database, f)
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def solution_for(name, size):
    """a readable made-up layout that can be told apart"""
    u, w, h = size
    row = [{'tile': {'type': 'belt', 'input_direction': 0, 'output_direction': 0}} for _ in range(w)]
    rows = [[dict(c) for c in row] for _ in range(h)]
    rows[0][0] = {'tile': {'type': 'empty'}, 'mark': [name, u, w, h]}
    return rows


def mark_of(solution):
    return tuple(solution[0][0]['mark'])


def implied(size, results):
    """What is known about a size, given {size: bool}"""
    for other, yes in results.items():
        if yes and all(a >= b for a, b in zip(size, other)):
            return True
        if not yes and all(a <= b for a, b in zip(size, other)):
            return False
    return None


class Runaway(Exception):
    pass


class Scheduler:
    """Holds the submitted jobs; completes them one at a time in the order the choices say."""
    current = None

    def __init__(self, choices=(), on_step=None):
        self.choices, self.taken = list(choices), []
        self.pending = []
        self.progress = 0
        self.lock = threading.RLock()
        self.on_step = on_step
        self.max_pending = 0

    def submit(self, fn, args, kwargs):
        fut = concurrent.futures.Future()
        with self.lock:
            self.pending.append((fut, fn, args, kwargs))
            self.progress += 1
        return fut

    def step(self):
        with self.lock:
            if not self.pending:
                return False
            n = len(self.pending)
            self.max_pending = max(self.max_pending, n)
            k = self.choices[len(self.taken)] if len(self.taken) < len(self.choices) else 0
            k = min(k, n - 1)
            self.taken.append((k, n))
            fut, fn, args, kwargs = self.pending.pop(k)
            self.progress += 1
        if not fut.set_running_or_notify_cancel():
            return True
        try:
            res = fn(*args, **kwargs)
        except BaseException as e:
            fut.set_exception(e)
        else:
            fut.set_result(res)
        if self.on_step:
            self.on_step()
        return True


class FakeExecutor(concurrent.futures.Executor):
    def __init__(self, *args, **kwargs):
        self.sched = Scheduler.current

    def submit(self, fn, /, *args, **kwargs):
        return self.sched.submit(fn, args, kwargs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        if wait and not cancel_futures:
            while self.sched.step():
                pass


def _watchdog():
    """Completes a job when nothing has moved for a while (an implementation that does not wait in a selector)."""
    last = None
    while True:
        time.sleep(0.15)
        s = Scheduler.current
        if s is None:
            last = None
            continue
        now = (id(s), s.progress)
        if now == last and s.pending:
            s.step()
        last = now


_watch = {}


@contextlib.contextmanager
def controlled(sched, solver, fsync=True):
    """The optimiser's executor and solver replaced; idle waiting completes a job."""
    if _watch.get(os.getpid()) is None:
        _watch[os.getpid()] = threading.Thread(target=_watchdog, daemon=True)
        _watch[os.getpid()].start()
    Scheduler.current = sched
    cls = selectors.DefaultSelector
    original = cls.select

    def select(self, timeout=None):
        if (timeout is None or timeout > 0) and threading.current_thread() is threading.main_thread():
            ready = original(self, 0)
            if ready:
                return ready
            if sched.step():
                return original(self, 0)
            if timeout is None and not sched.pending:
                return original(self, 5)
        return original(self, timeout)
    saved = [(concurrent.futures, 'ProcessPoolExecutor'), (concurrent.futures, 'ThreadPoolExecutor'), (co, 'solve_balancer'), (os, 'fsync')]
    saved = [(m, a, getattr(m, a)) for m, a in saved if hasattr(m, a) and (fsync or a != 'fsync')]
    extra = [(m, a, v) for m, a, v in ((co, q, getattr(co, q)) for q in ('ProcessPoolExecutor', 'ThreadPoolExecutor') if hasattr(co, q))]
    cls.select = select
    try:
        for m, a, v in saved + extra:
            if a.endswith('Executor'):
                setattr(m, a, FakeExecutor)
            elif a == 'solve_balancer':
                setattr(m, a, solver)
            elif a == 'fsync':
                setattr(m, a, lambda fd: None)
        yield
    finally:
        cls.select = original
        for m, a, v in saved + extra:
            setattr(m, a, v)
        Scheduler.current = None


def command(argv, cwd):
    """calculate_optimal with the world's database; returns standard output"""
    out = io.StringIO()
    old = sys.argv, sys.stdout, os.getcwd()
    try:
        os.chdir(cwd)
        sys.argv = ['calculate_optimal', '--database', 'db.json'] + [str(a) for a in argv]
        sys.stdout = out
        co.main()
    finally:
        sys.argv, sys.stdout = old[:2]
        os.chdir(old[2])
    return out.getvalue()


def find_args(args, kwargs, names):
    """(network name, size) of a call of the solver"""
    size = net = None
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, (tuple, list)) and len(a) == 3 and all(isinstance(q, int) for q in a):
            size = tuple(a)
        elif isinstance(a, (tuple, list)):
            net = a
    key = sorted(map(str, ((tuple(x), tuple(y)) for x, y in net)))
    for n in names:
        nodes = [[None if int(q) == -1 else int(q) for q in l.split()] for l in TEXTS[n].splitlines()]
        if sorted(map(str, ((tuple(v[:2]), tuple(v[2:])) for v in nodes))) == key:
            return n, size
    raise AssertionError('unknown network %r' % (net,))


def load(d):
    """{name: ({size: bool}, {size: solution})} of the database file, or None without a file"""
    try:
        with open(d + '/db.json') as f:
            data = json.load(f)
    except FileNotFoundError:
        return None
    return {n: tuple({tuple(map(int, k.split(','))): v for k, v in item.get(part, {}).items()} for part in ('exist', 'solutions')) for n, item in data.items()}


def make_database(known):
    """known: {name: {size: bool}} -> database contents"""
    return {n: {'exist': {','.join(map(str, s)): v for s, v in r.items()},
                'solutions': {','.join(map(str, s)): solution_for(n, s) for s, v in r.items() if v}} for n, r in known.items()}


def runs(make):
    """Stateless exploration of all completion orders: make(choices) runs once and returns the choices taken [(k, n)]."""
    stack = [()]
    while stack:
        prefix = stack.pop()
        taken = make(prefix)
        for i in range(len(prefix), len(taken)):
            for k in range(1, taken[i][1]):
                stack.append(tuple(c for c, _ in taken[:i]) + (k,))
