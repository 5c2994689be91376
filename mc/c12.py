"""C12: rotations and flips, through the real command, against the turned picture."""
import itertools
import json

from . import bal, sources
from .books import turn
from .bridge import to_json_tile, from_json_tile
from .c10 import INSERTERS, chunks
from .common import Check, pmap, tool
from .ref import ALPHABET, E, Rules, UGS, X

OPS = {'no_op': (False, 0), 'rot_90': (False, 1), 'rot_180': (False, 2), 'rot_270': (False, 3), 'flip_x': (True, 0), 'flip_y': (True, 2)}
MACHINE = [('A', x, y) for x in range(3) for y in range(3)]


def tile_json(t):
    if t[0] == 'I':
        return {'type': 'inserter', 'direction': t[1], 'insert_type': t[2]}
    if t[0] == 'A':
        return {'type': 'assembling_machine', 'x': t[1], 'y': t[2]}
    return to_json_tile(t)


def json_tile(j):
    if j['type'] == 'inserter':
        return ('I', j['direction'], j['insert_type'])
    if j['type'] == 'assembling_machine':
        return ('A', j['x'], j['y'])
    return from_json_tile(j)


def turned(g, w, h, mirror, quarter):
    """The turned picture.  A machine's part keeps its place within the machine as seen in the picture."""
    out, ow, oh = turn(g, w, h, mirror, quarter)

    def fix(t):
        if t[0] == 'I':
            d = (2 - t[1]) % 4 if mirror else t[1]
            return ('I', (d + quarter) % 4, t[2])
        if t[0] == 'A':
            x, y = t[1:]
            if mirror:
                x = 2 - x
            for _ in range(quarter):
                x, y = y, 2 - x
            return ('A', x, y)
        return t
    return {p: fix(t) for p, t in out.items()}, ow, oh


def apply(op, todo):
    r = tool('rotate', [op] if op else [], '\n'.join(json.dumps([[{'tile': tile_json(g[x, y])} for x in range(w)] for y in range(h)]) for g, w, h in todo) + '\n').check()
    res = []
    for line in r.lines:
        rows = json.loads(line)
        res.append(({(x, y): json_tile(c['tile']) for y, row in enumerate(rows) for x, c in enumerate(row)}, len(rows[0]), len(rows)))
    return res


def compare(todo, bad):
    n = 0
    done = {}
    for op in list(OPS) + [None]:
        mirror, quarter = OPS[op or 'rot_90']
        got = apply(op, todo)
        done[op] = got
        n += len(todo)
        if len(got) != len(todo):
            bad.append(('%s printed %d layouts for %d' % (op, len(got), len(todo)), None))
            continue
        for l, m in zip(todo, got):
            want = turned(*l, mirror, quarter)
            if m != want:
                diff = [(p, m[0].get(p), want[0].get(p)) for p in sorted(set(m[0]) | set(want[0])) if m[0].get(p) != want[0].get(p)]
                bad.append(('%s of a %dx%d layout: %s (cell, result, expected)' % (op, l[1], l[2], diff[:4]), repr(l)))
    return n, done


def compose(todo, bad):
    """the operations applied to their own results, as the square's group demands"""
    n = 0
    first = {op: apply(op, todo) for op in OPS}
    for a, b in itertools.product(OPS, repeat=2):
        got = apply(b, first[a])
        n += len(todo)
        for l, m in zip(todo, got):
            want = turned(*turned(*l, *OPS[a]), *OPS[b])
            if m != want:
                bad.append(('%s after %s of a %dx%d layout is wrong' % (b, a, l[1], l[2]), repr(l)))
                break
    quarter = todo
    for _ in range(4):
        quarter = apply('rot_90', quarter)
        n += len(todo)
    if quarter != todo:
        bad.append(('four quarter turns change a layout', repr(todo[:3])))
    return n


def result(states, n, bad, part):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=states), part=(part, dict(layouts=states)), violations=bad[:50])


def tiles(part):
    """every tile at every place of small grids (the rest empty), every pair of tiles"""
    bad, n, todo = [], 0, []
    every = ALPHABET + [X] + INSERTERS + MACHINE
    for t in every:
        for w, h in ((1, 1), (1, 2), (3, 1), (2, 3), (3, 3)):
            for x in range(w):
                for y in range(h):
                    g = {(i, j): E for i in range(w) for j in range(h)}
                    g[x, y] = t
                    todo.append((g, w, h))
        for u in every:
            todo.append(({(0, 0): t, (1, 0): u}, 2, 1))
            todo.append(({(0, 0): t, (0, 1): u}, 1, 2))
    for x in range(3):
        for y in range(3):                               # a whole machine anywhere in a larger grid, with an inserter
            for ins in INSERTERS:
                g = {(i, j): E for i in range(5) for j in range(6)}
                for (_, i, j) in MACHINE:
                    g[x + i, y + j] = ('A', i, j)
                g[(x + 4) % 5 if x != 1 else 0, 5 if y < 3 else 0] = ins
                todo.append((g, 5, 6))
    todo = todo[part::16]
    k, _ = compare(todo, bad)
    n = k + compose(todo, bad)
    return result(len(todo), n, bad, 'single tiles and pairs')


def buildable(item):
    w, h, prefix = item
    bad, n, states = [], 0, 0
    for todo in chunks(((g, w, h) for g in sources.legal_layouts(w, h, 4, prefix=prefix)), 1000):
        k, done = compare(todo, bad)
        n += k
        R = {(w, h): Rules(w, h, (False, False), 4), (h, w): Rules(h, w, (False, False), 4)}
        for op, got in done.items():
            for m in got:
                if not R[m[1:]].legal(m[0]):
                    bad.append(('%s of a buildable layout is not buildable' % op, repr(m)))
        states += len(todo)
    return result(states, n, bad, 'buildable %dx%d' % (w, h))


def shipped(item):
    bad = []
    todo = [(g, w, h) for label, L, g, w, h in item]
    n, done = compare(todo, bad)
    n += compose(todo, bad)
    for k, (label, L, g, w, h) in enumerate(item):
        net = bal.network_of(bal.Trace(g, w, h))
        for op, got in done.items():
            if not bal.realises(bal.Trace(*got[k]), net):
                bad.append(('%s of %s does not have its wiring' % (op, label), repr(g)))
    return result(len(todo), n, bad, 'shipped balancers')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C12', 'model_checking', tier, 'every tile at every place of small grids, all pairs of tiles, all buildable layouts of the listed grids and all shipped balancers through all operations and all pairs of operations of the real command')
    jobs = [('tiles', k) for k in range(16)]
    lay = sources.books(8 if c.thorough else 1)
    jobs += [('shipped', lay[k::64]) for k in range(64)]
    for p in sources.prefixes(2, 2):
        jobs += [('buildable', (2, 2, p)), ('buildable', (1, 3, p)), ('buildable', (3, 1, p))]
    for p in sources.prefixes(3, 2, 2):
        if c.thorough or p[0] in (('S', 0, True), ('S', 1, False), ('S', 2, False), ('S', 3, True), ('U', 0, True), ('B', 0, 1)):
            jobs.append(('buildable', (3, 2, p)))
    if c.thorough:
        jobs += [('buildable', (2, 3, p)) for p in sources.prefixes(2, 3, 2)]
    pmap(_run, jobs, c)
    c.sample('flip_y of every buildable 3x2 layout starting with a splitter, compared with the turned picture and checked buildable')
    return c.finish(['the turned picture (mc/books.turn) is the definition of the symmetries'])
