"""C18: interrupting the optimiser.  The real compute command is stopped at every file system call (torn writes included), at every
line it executes (Ctrl-C) and with every call failing; after each the database on disk is read back and the run resumed."""
import ctypes
import errno
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import c17
from . import optrun as o
from .common import Check, VERIF, pmap

TORN = (1, 2, 3, 4)
PAD = 'x' * 30000


def prepare():
    """Restart this check with the shim in place (it has to be there from the start of the process)."""
    d = tempfile.mkdtemp(prefix='mcverif.')
    so = d + '/crash.so'
    try:
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(VERIF, 'csrc', 'crash.c'), '-ldl'], check=True)
        return subprocess.run([sys.executable, '-m', 'mc.main', 'C18', os.environ['VERIF_TIER']], cwd=VERIF, env=dict(os.environ, LD_PRELOAD=so, MC_C18=so)).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shim():
    return ctypes.CDLL(os.environ['MC_C18'])


class Interrupt:
    """KeyboardInterrupt at the k-th step of the program's own lines"""

    def __init__(self, at, fine):
        self.at, self.n, self.fine = at, 0, fine
        json_dir = os.path.dirname(json.__file__)
        self.files = lambda f: f == o.co.__file__ or (f.startswith(json_dir) if fine == 'fine' else f == json.__file__ if fine == 'json' else False)

    def __call__(self, frame, event, arg):
        if event == 'call':
            if not self.files(frame.f_code.co_filename):
                return None
            if self.fine == 'fine' and frame.f_code.co_filename == o.co.__file__:
                frame.f_trace_opcodes = True
            return self
        if event in ('line', 'opcode'):
            self.n += 1
            if self.n - 1 == self.at:
                sys.settrace(None)
                raise KeyboardInterrupt
        return self


def attempt(d, worlds, objective, u, choices, how):
    """One run in a child process.  how: ('call', k, mode, errno) or ('line', k, fine).
    Returns (exit status, sizes asked in order, number of steps, kinds of calls)"""
    r, w = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            os.close(r2)
            os.dup2(os.open('/dev/null', os.O_WRONLY), 2)

            def solver(*args, **kwargs):
                name, size = o.find_args(args, kwargs, list(worlds))
                os.write(w, (json.dumps([name, size]) + '\n').encode())
                return o.solution_for(name, size) if worlds[name](size) else None
            lib = shim()
            sched = o.Scheduler(choices)
            with o.controlled(sched, solver, fsync=False):
                tr = None
                if how[0] == 'call':
                    lib.crash_arm(*how[1:])
                else:
                    tr = Interrupt(*how[1:])
                    sys.settrace(tr)
                try:
                    o.command(['compute', u, objective, '--threads', 2], d)
                    code = 0
                except BaseException as e:
                    code = 78 if isinstance(e, KeyboardInterrupt) else 79 if isinstance(e, OSError) else 80
                finally:
                    sys.settrace(None)
                    lib.crash_disarm()
            n = lib.crash_count() if tr is None else tr.n
            kinds = [chr(lib.crash_kind(i)) for i in range(n)] if tr is None else []
            os.write(w2, json.dumps([n, ''.join(kinds), sched.taken]).encode())
        finally:
            os._exit(code)
    os.close(w)
    os.close(w2)
    with os.fdopen(r) as f:
        asked = [(a, tuple(b)) for a, b in map(json.loads, f)]
    with os.fdopen(r2) as f:
        rest = json.loads(f.read() or '[0, "", []]')
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), asked, rest[0], rest[1], rest[2]


def image(d):
    """everything in the directory, as a key"""
    res = []
    for base, _, files in os.walk(d):
        for f in files:
            with open(os.path.join(base, f), 'rb') as h:
                res.append((os.path.relpath(os.path.join(base, f), d), hash(h.read())))
    return tuple(sorted(res))


def read(d):
    try:
        return o.load(d)
    except (ValueError, AttributeError, KeyError, TypeError) as e:
        with open(d + '/db.json', 'rb') as f:
            text = f.read()
        return 'unreadable (%s): %d bytes %r' % (e, len(text), text[:60])


def covers(now, before):
    """None, or what of the earlier knowledge is missing"""
    for name, (exist, sols) in before.items():
        e2, s2 = now.get(name, ({}, {}))
        for size, yes in exist.items():
            if o.implied(size, e2) != yes:
                return '%s %s = %s' % (name, size, yes)
        for size, s in sols.items():
            if s2.get(size) != s:
                return 'the solution of %s %s' % (name, size)
    return None


def judge(d, before, asked, worlds, what, bad):
    """The state an interrupted run leaves behind."""
    now = read(d)
    if isinstance(now, str):
        bad.append(('%s: the database is %s' % (what, now), None))
        return None
    if now is None:
        if before is not None:
            bad.append(('%s: the database is gone' % what, None))
            return None
        now = {}
    lost = covers(now, before or {})
    if lost:
        bad.append(('%s: %s, saved earlier, is lost' % (what, lost), None))
    seen = {}
    for name, size in asked:
        seen.setdefault(name, []).append(size)
    for name, sizes in seen.items():
        exist, sols = now.get(name, ({}, {}))
        for size in sizes[:-1]:
            if o.implied(size, exist) != worlds[name](size):
                bad.append(('%s: the result %s of %s is not saved although the next size is being tried' % (what, size, name), None))
    for name, oracle in worlds.items():
        exist, sols = now.get(name, ({}, {}))
        for size, yes in exist.items():
            if oracle(size) != yes:
                bad.append(('%s: the database says %s of %s is %s' % (what, size, name, yes), None))
        for size, s in sols.items():
            if o.mark_of(s)[0] != name or o.mark_of(s)[1:] != size:
                bad.append(('%s: solution of %s stored for %s %s' % (what, o.mark_of(s), name, size), None))
    return now


def resume(d, worlds, objective, u, now, what, bad):
    known = {n: dict(e) for n, (e, s) in now.items() if n in worlds}
    before = o.load(d)
    c17.compute(d, worlds, objective, u, (), known, bad, what + ', then run again')
    lost = covers(o.load(d) or {}, before or {})
    if lost:
        bad.append(('%s, then run again: %s is lost' % (what, lost), None))


def setup(d, prior, others):
    data = o.make_database(prior)
    for name, size in others:
        data[name] = {'exist': {'%d,%d,%d' % size: True}, 'solutions': {'%d,%d,%d' % size: o.solution_for(name, size)}}
        data[name]['solutions']['%d,%d,%d' % size][0][0]['pad'] = PAD
    if data:
        with open(d + '/db.json', 'w') as f:
            json.dump(data, f)
    return read(d)


def points(kinds, faults):
    for k, kind in enumerate(kinds):
        yield ('call', k, 0, 0)
        if kind == 'w':
            for m in TORN:
                yield ('call', k, m, 0)
        if faults:
            yield ('call', k, 8, errno.ENOSPC)
            if kind == 'w':
                yield ('call', k, 9, errno.ENOSPC)


def crash(item):
    """every interruption of one history"""
    steps, objective, u, choices, prior, others, kind, again = item
    worlds = {n: c17.Oracle(n, s) for n, s in steps.items()}
    prior = {n: {s: worlds[n](s) for s in sizes} for n, sizes in prior.items()}
    base = 'compute %s %s with %s, database %s%s, results in order %s' % (u, objective, list(worlds.values()), prior, ' and others' if others else '', list(choices))
    bad, n = [], 0
    with o.world(list(worlds)) as d:
        first = setup(d, prior, others)
        whole = ('call', -1, 0, 0) if kind != 'lines' else ('line', -1, again)
        code, asked, total, kinds, _ = attempt(d, worlds, objective, u, choices, whole)
        if code:
            return dict(violations=[('%s: the uninterrupted run failed (%s)' % (base, code), None)])
        judge(d, first, asked, worlds, base, bad)
    last = first
    resumed = set()
    todo = points(kinds, True) if kind == 'calls' else (('line', k, again) for k in range(total)) if kind == 'lines' else points(kinds, False)
    for how in todo:
        if how[0] == 'line':
            what = '%s: Ctrl-C at step %d' % (base, how[1])
        else:
            name = {'o': 'open', 'w': 'write', 'c': 'close', 'f': 'fsync', 'r': 'rename', 'u': 'unlink', 't': 'truncate', 'l': 'link', 's': 'copy'}.get(kinds[how[1]], kinds[how[1]])
            what = '%s: %s' % (base, {0: 'killed before call %d (%s)', 1: 'killed in call %d (%s) after one byte', 2: 'killed in call %d (%s) after half', 3: 'killed in call %d (%s) before the last byte',
                                      4: 'killed right after call %d (%s)', 8: 'call %d (%s) fails', 9: 'call %d (%s) is cut short and the disk is full'}[how[2]] % (how[1], name))
        with o.world(list(worlds)) as d:
            setup(d, prior, others)
            code, asked, _, _, taken = attempt(d, worlds, objective, u, choices, how)
            n += 1
            if code in (80, 99):
                bad.append(('%s: unexpected failure (%s)' % (what, code), None))
                break
            # what a kill at an earlier point already found saved must still be there
            mono = how[0] == 'call' and how[2] in (0,) + TORN
            now = judge(d, last if mono else first, asked, worlds, what, bad)
            if mono and now:
                last = now
            if now is None:
                break
            key = image(d)
            if key in resumed:
                continue
            resumed.add(key)
            if again == 'twice':
                copy = os.path.join(os.path.dirname(d), os.path.basename(d) + '.s')
                shutil.copytree(d, copy)
                try:
                    j = 0
                    while True:
                        shutil.rmtree(d)
                        shutil.copytree(copy, d)
                        code, asked, _, kinds2, _ = attempt(d, worlds, objective, u, (), ('call', j, 2, 0))
                        n += 1
                        judge(d, now or None, asked, worlds, '%s, run again and killed in call %d' % (what, j), bad)
                        if code != 77:
                            if j >= len(kinds2):
                                break
                        j += 1
                finally:
                    shutil.rmtree(copy, ignore_errors=True)
            else:
                resume(d, worlds, objective, u, now, what, bad)
        if len(bad) > 5:
            break
    return dict(counts=dict(states=len(resumed), transitions=n, traces_validated_against_impl=n, crash_points=n), part=({'calls': 'system calls', 'lines': 'keyboard interrupts', 'kill': 'killed twice'}[kind], dict(histories=1, interruptions=n)),
                violations=bad[:10])


def all_orders(steps, objective, u, prior):
    """all completion orders of a history"""
    worlds = {n: c17.Oracle(n, s) for n, s in steps.items()}
    res = []

    def make(choices):
        with o.world(list(worlds)) as d:
            setup(d, {n: {s: worlds[n](s) for s in sizes} for n, sizes in prior.items()}, [])
            taken = attempt(d, worlds, objective, u, choices, ('call', -1, 0, 0))[4]
        res.append(tuple(k for k, _ in taken))
        return taken
    o.runs(make)
    return res


def run(tier):
    if not os.environ.get('MC_C18'):
        return prepare()
    c = Check('C18', 'fault_enumeration', tier, 'the real compute command stopped at every file system call (torn writes, failing calls), at every executed line (Ctrl-C) and twice in a row; '
                                               'the database read back and the run resumed after each')
    t = c.thorough
    jobs = []
    A, B, C = {4: (3, 2, 2)}, {4: (2, 1, 1)}, {4: (4, 4, 1)}
    histories = [
        ({'2x2': A}, 'area', 4, {}, []),
        ({'2x2': C}, 'length', 4, {}, []),
        ({'2x2': A}, 'area', 4, {'2x2': [(4, 4, 2), (8, 7, 4)]}, []),
        ({'2x2': A}, 'length', 6, {'2x2': [(4, 4, 2)]}, [('9x9', (4, 5, 3))]),
        ({'2x2': C, '1x2': B}, 'area', 4, {}, [('9x9', (4, 5, 3))]),
        ({'2x2': A, '1x2': B}, 'length', 4, {'1x2': [(4, 6, 3)]}, []),
        ({'2x2': B, '1x2': B}, 'area', 4, {}, []),
    ]
    if t:
        histories += [({'2x2': B, '1x2': B, '2x1': B}, 'area', 4, {}, []), ({'2x2': A, '1x2': A, '2x1': C}, 'area', 4, {}, [('9x9', (4, 5, 3)), ('0x0', (6, 3, 3))]), ({'2x2': C, '1x2': A, '1x1': {4: (5, 3)}}, 'area', 6, {'1x1': [(6, 3, 1), (8, 5, 2)]}, [])]
    small = 0
    for steps, objective, u, prior, others in histories:
        for i, ch in enumerate(all_orders(steps, objective, u, prior)):
            jobs.append((steps, objective, u, ch, prior, others, 'calls', None))
            if t or (i == 0 and not others):
                jobs.append((steps, objective, u, ch, prior, [], 'lines', 'fine' if t and len(steps) < 3 else 'json' if t or not jobs[:-1] else None))
            if i == 0 and (t or small < 2):
                small += 1
                jobs.append((steps, objective, u, ch, prior, others, 'kill', 'twice'))
    pmap(crash, jobs, c)
    c.sample('compute 4 area, killed after half of the second write of a save, run again')
    c.sample('compute 4 length, Ctrl-C between closing and renaming, run again')
    return c.finish(['a killed process leaves the files as its completed system calls left them (no power loss)', 'possibility oracle and completion order are controlled as in C17'])
