"""C17: the optimiser.  The real compute command on made-up worlds: every oracle, prior database and order of results."""
import itertools
import json
import os
import subprocess
import sys

from . import bal
from . import optrun as o
from .balrun import parse_net, shipped
from .bridge import grid_from_json
from .c02 import sound
from .common import Check, REPO, pmap

INF = 99


def staircases(low, top, n):
    """least possible interior width per height, never growing with the height"""
    def rec(k, prev):
        if k == n:
            yield ()
            return
        for t in range(prev, 0, -1):
            for rest in rec(k + 1, t):
                yield (t,) + rest
    for s in rec(0, top):
        if all(t >= l for t, l in zip(s, low)):
            yield s


class Oracle:
    """steps: {underground length: least interior width for each height from the least one on}; larger heights as the last one"""

    def __init__(self, name, steps):
        self.name, self.steps = name, steps
        self.nodes, self.least = o.shape(name)

    def __call__(self, size):
        u, w, h = size
        lens = [q for q in self.steps if q <= u]
        if h < self.least or not lens:
            return False
        s = self.steps[max(lens)]
        return w - 2 >= s[min(h - self.least, len(s) - 1)]

    def __repr__(self):
        return '%s%r' % (self.name, self.steps)


def low(name):
    nodes, least = o.shape(name)
    return [max(1, -(-2 * nodes // h)) for h in range(least, 2 * least + 1)]


def oracles(name, top, levels=(4,)):
    """all oracles with the given underground levels; longer undergrounds never make things worse"""
    l = low(name)
    base = list(staircases(l, top, len(l)))

    def rec(k):
        if k == 0:
            yield ()
            return
        for prev in rec(k - 1):
            for s in base:
                if not prev or all(a <= b for a, b in zip(s, prev[-1])):
                    yield prev + (s,)
    for combo in rec(len(levels)):
        yield Oracle(name, dict(zip(levels, combo)))


def optimum(oracle, objective, u):
    """(loss of the best size the search covers)"""
    least = oracle.least
    best = None
    for h in range(least, (2 * least if objective == 'area' else least) + 1):
        for w in range(3, 60):
            if (w - 2) * h >= 2 * oracle.nodes and oracle((u, w, h)):
                loss = (w - 2) * h if objective == 'area' else w
                best = loss if best is None else min(best, loss)
                break
    return best


def loss(objective, mark):
    _, _, w, h = mark
    return (w - 2) * h if objective == 'area' else w


def compute(d, worlds, objective, u, choices, known, bad, what):
    """One run of the real command.  known: {name: {size: bool}} before; returns (taken choices, known after)."""
    known = {n: dict(r) for n, r in known.items()}
    calls = [0]

    def solver(*args, **kwargs):
        name, size = o.find_args(args, kwargs, list(worlds))
        calls[0] += 1
        if calls[0] > 200:
            raise o.Runaway('more than 200 sizes asked')
        have = known.setdefault(name, {})
        if size in have or o.implied(size, have) is not None:
            bad.append(('%s: size %s of %s is solved although its answer (%s) is already implied by %s' % (what, size, name, o.implied(size, have), have), None))
        yes = worlds[name](size)
        have[size] = yes
        return o.solution_for(name, size) if yes else None
    sched = o.Scheduler(choices)
    with o.controlled(sched, solver):
        o.command(['compute', u, objective, '--threads', 4], d)
    if sched.pending:
        bad.append(('%s: the command ended with %d results outstanding' % (what, len(sched.pending)), None))
    data = o.load(d) or {}
    for name, oracle in worlds.items():
        exist, sols = data.get(name, ({}, {}))
        have = known.setdefault(name, {})
        for size, yes in exist.items():
            if oracle(size) != yes:
                bad.append(('%s: the database says %s is %s for %s, which no result implies' % (what, size, 'possible' if yes else 'impossible', name), None))
        for size in have:
            if o.implied(size, exist) != have[size]:
                bad.append(('%s: the result %s = %s for %s is lost' % (what, size, have[size], name), None))
        for size, s in sols.items():
            if o.mark_of(s)[0] != name or o.mark_of(s)[1:] != size or not oracle(size):
                bad.append(('%s: the solution stored for %s %s is the one of %s' % (what, name, size, o.mark_of(s)), None))
        want = optimum(oracle, objective, u)
        fit = [o.mark_of(s) for size, s in sols.items() if size[0] <= u and (objective == 'area' or size[2] == oracle.least)]
        got = min((loss(objective, m) for m in fit), default=None)
        if objective == 'area' and got is not None and got < want and not any(m[3] <= 2 * oracle.least and loss(objective, m) < want for m in fit):
            got = want                                  # a taller solution found by someone else may be better still
        if got != want:
            bad.append(('%s: the best stored solution of %s has %s %s, the optimum is %s' % (what, name, 'area' if objective == 'area' else 'length', got, want), None))
        for size, s in sols.items():
            if size in exist and not exist[size]:
                bad.append(('%s: a solution is stored for %s but the size is marked impossible' % (what, size), None))
    # the answer a user gets
    lines = o.command(['query', u, objective], d).splitlines()
    marks = {o.mark_of(json.loads(l))[0]: o.mark_of(json.loads(l)) for l in lines}
    for name, oracle in worlds.items():
        m = marks.get(name)
        want = optimum(oracle, objective, u)
        if m is None or loss(objective, m) > want or m[1] > u:
            bad.append(('%s: the query answers %s for %s, the optimum is %s' % (what, m, name, want), None))
    return sched.taken, known


def result(states, n, bad, part, orders=0):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=n, schedules=orders or n), part=(part, dict(runs=n)), violations=bad[:10])


def describe(worlds, objective, u, extra=''):
    return 'compute %s %s with %s%s' % (u, objective, list(worlds.values()), extra)


def single(item):
    """one network, nothing known"""
    name, top, levels, objective, u, k, parts = item
    bad, n, st = [], 0, 0
    for orc in itertools.islice(oracles(name, top, levels), k, None, parts):
        with o.world([name]) as d:
            taken, _ = compute(d, {name: orc}, objective, u, (), {}, bad, describe({name: orc}, objective, u))
        n += 1
        st += len(taken)
        if len(bad) > 5:
            break
    return result(st, n, bad, 'one network')


def prior(item):
    """one network, every set of up to two known sizes beforehand"""
    name, top, levels, objective, u, points, most, k, parts = item
    bad, n, st = [], 0, 0
    for orc in itertools.islice(oracles(name, top, levels), k, None, parts):
        for r in range(1, most + 1):
            for known in itertools.combinations(points, r):
                before = {name: {s: orc(s) for s in known}}
                with o.world([name], o.make_database(before)) as d:
                    taken, _ = compute(d, {name: orc}, objective, u, (), before, bad, describe({name: orc}, objective, u, ' after %s' % before))
                n += 1
                st += len(taken)
                if len(bad) > 5:
                    return result(st, n, bad, 'prior database')
    return result(st, n, bad, 'prior database')


def history(item):
    """several runs with different objectives and undergrounds on one database"""
    name, top, levels, depth, lengths, k, parts = item
    bad, n, st = [], 0, 0
    kinds = [(obj, u) for obj in ('area', 'length') for u in lengths]
    for orc in itertools.islice(oracles(name, top, levels), k, None, parts):
        for seq in itertools.product(kinds, repeat=depth):
            with o.world([name]) as d:
                known = {}
                for i, (obj, u) in enumerate(seq):
                    taken, known = compute(d, {name: orc}, obj, u, (), known, bad, describe({name: orc}, obj, u, ' after runs %s' % (seq[:i],)))
                    n += 1
                    st += len(taken)
            if len(bad) > 5:
                return result(st, n, bad, 'histories of runs')
    return result(st, n, bad, 'histories of runs')


def orders(item):
    """several networks, every order in which the results can arrive"""
    worlds, objective, u, before = item
    worlds = {n: Oracle(n, s) for n, s in worlds.items()}
    bad, cnt, st = [], [0], [0]

    def make(choices):
        if bad:
            return []
        known = {n: {s: worlds[n](s) for s in sizes} for n, sizes in before.items()}
        with o.world(list(worlds), o.make_database(known) if known else None) as d:
            taken, _ = compute(d, worlds, objective, u, choices, known, bad, describe(worlds, objective, u, ', results arriving in the order %s' % (choices,)))
        cnt[0] += 1
        st[0] += len(taken)
        return taken
    o.runs(make)
    return result(st[0], cnt[0], bad, 'completion orders')


# Does a balancer with belts at its ends exist?  Facts from the explicit enumeration of all layouts (bal.all_layouts), which takes
# minutes for these; the thorough tier enumerates them again.
FACTS = {}
for _n, _no, _yes in (('1x3', ((4, 6), (5, 5), (7, 3), (8, 3)), ((6, 4),)), ('3x1', ((6, 4), (5, 6), (8, 3)), ())):
    for _u in (1, 2, 4):
        FACTS.update({(_n, _u, w, h): False for w, h in _no if (_u, w) != (1, 8) or _n == '3x1'})
        FACTS.update({(_n, _u, w, h): True for w, h in _yes})
FACTS.update({(n, u, 9, 3): True for n in ('1x3', '3x1') for u in (2, 4)})
FACTS.update({('3x1', u, 6, 5): True for u in (1, 2)})


def real_exists(name, size, again):
    u, w, h = size
    if (name, u, w, h) in FACTS and not again:
        return FACTS[name, u, w, h]
    return any(all(k[y * w][0] != 'S' for y in range(h)) for k in bal.all_layouts(w, h, u, parse_net(o.TEXTS[name]), 'aligned'))


def real(item):
    """the whole program with its real solver and process pool"""
    names, u, objective, again = item
    bad = []
    with o.world(names) as d:
        r = subprocess.run([sys.executable, '-m', 'factorio_sat.calculate_optimal', '--database', 'db.json', 'compute', str(u), objective, '--threads', '2'], cwd=d,
                           env=dict(os.environ, PYTHONPATH=REPO), capture_output=True, text=True)
        what = 'compute %s %s of %s with the real solver' % (u, objective, names)
        if r.returncode:
            return result(0, 1, [('%s failed:\n%s' % (what, r.stderr[-1500:]), None)], 'real solver')
        data = o.load(d) or {}
        n = 0
        for name in names:
            exist, sols = data.get(name, ({}, {}))
            net = parse_net(o.TEXTS[name])
            if not any(v for v in exist.values()):
                bad.append(('%s: no solution of %s' % (what, name), None))
            for size, yes in exist.items():
                n += 1
                if real_exists(name, size, again) != yes:
                    bad.append(('%s: size %s of %s is recorded as %s' % (what, size, name, 'possible' if yes else 'impossible'), None))
                if yes and size not in sols:
                    bad.append(('%s: no solution stored for size %s of %s' % (what, size, name), None))
            for size, s in sols.items():
                g, w, h = grid_from_json(s)
                why = 'has another size' if (w, h) != size[1:] else sound(g, w, h, size[0], net, 'aligned', False)
                if why:
                    bad.append(('%s: the solution stored for %s %s %s' % (what, name, size, why), json.dumps(s)))
    return result(n, 1, bad, 'real solver')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C17', 'model_checking', tier, 'the real compute command under a controlled executor: all monotone oracles, prior databases, histories of runs and completion orders within the listed bounds')
    t = c.thorough
    jobs = []
    P = 8
    for objective in ('area', 'length'):
        for name, top, levels in (('2x2', 6, (4,)), ('1x2', 5, (4,)), ('2x1', 5, (4,)), ('1x1', 7, (4,)), ('2x2b', 6, (4,)), ('3x3', 6, (4,)), ('1x3', 6, (4,)), ('2x2', 4, (4, 6)), ('2x2', 4, (0, 3))):
            for u in sorted(set(levels) | {8}):
                jobs += [('single', (name, top + (1 if t else 0), levels, objective, u, k, P)) for k in range(P)]
        pts = [(u, w, h) for u in (4, 6) for w in (3, 4, 5) for h in (2, 3, 4)]
        for u in (4, 6):
            jobs += [('prior', ('2x2', 3, (4, 6), objective, u, pts, 3 if t else 2, k, 16)) for k in range(16)]
        near = [(u, w, h) for u in (4, 5) for w in (3, 4, 5) for h in (2, 4)]
        for u in (4, 5):
            jobs += [('prior', ('2x2', 3, (4, 5), objective, u, near, 3 if t else 2, k, 16)) for k in range(16)]
        pts1 = [(u, w, h) for u in (4, 8) for w in (3, 4, 5, 6) for h in (1, 2)]
        jobs += [('prior', ('1x1', 5, (4, 8), objective, 4, pts1, 3 if t else 2, k, 16)) for k in range(16)]
    jobs += [('history', ('2x2', 4 if t else 3, (4, 6), 2, (4, 6, 8), k, 16)) for k in range(16)]
    jobs += [('history', ('1x1', 4, (4, 6), 3 if t else 2, (4, 6), k, 16)) for k in range(16)]
    jobs += [('history', ('2x2', 3, (4, 5), 2, (4, 5), k, 16)) for k in range(16)]
    two = [{4: s} for s in ((1, 1, 1), (2, 1, 1), (3, 2, 2), (4, 4, 1))]
    for objective in ('area', 'length'):
        for a in two:
            for b in two:
                jobs.append(('orders', ({'2x2': a, '1x2': b}, objective, 4, {})))
        for a in two[:3]:
            jobs.append(('orders', ({'2x2': a, '1x2': {4: (2, 1, 1)}, '2x1': {4: (2, 2, 1)}}, objective, 4, {})))
            jobs.append(('orders', ({'2x2': a, '1x2': {4: (2, 1, 1)}, '1x1': {4: (5, 3)}}, objective, 6, {'2x2': [(4, 4, 2)], '1x1': [(6, 3, 1), (8, 5, 2)]})))
        if t:
            jobs.insert(0, ('orders', ({'2x2': two[2], '1x2': two[2], '2x1': two[2 if objective == 'length' else 1]}, objective, 4, {})))
            jobs.insert(0, ('orders', ({'2x2': two[1], '1x2': two[1], '2x1': two[1], '3x1': {4: (3, 2, 2, 2)}}, objective, 4, {})))
            jobs.append(('orders', ({'2x2': two[1], '1x2': two[0], '2x1': two[1], '1x1': {4: (5, 3)}}, objective, 4, {})))
    easy = ['1x2', '2x1', '2x2', '2x2b', 'bottle', '1x4', '4x1']
    for objective in ('area', 'length'):
        for u in (1, 2, 3, 4):
            jobs.insert(0, ('real', (easy, u, objective, t)))
        for u in (1, 2, 4):
            if objective == 'area' or u > 1:
                jobs.insert(0, ('real', (['1x3'], u, objective, t)))
            if (u, objective) not in ((1, 'length'), (4, 'area'), (4, 'length')):
                jobs.insert(0, ('real', (['3x1'], u, objective, t)))
    pmap(_run, jobs, c)
    c.sample('compute 6 area, oracle 2x2{4: (3, 3, 1), 6: (2, 1, 1)}, already known (4, 5, 3) and (6, 3, 4)')
    c.sample('compute 2 area of 1x3 with the real solver: every recorded size compared with the enumeration of all layouts')
    c.sample('compute 4 length with three networks, every order of their results')
    return c.finish(['the made-up worlds are monotone: larger sizes and longer undergrounds never make things worse', 'a size with fewer inner cells than splitter halves is never possible'])
