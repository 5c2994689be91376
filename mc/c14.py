"""C14: reading the network of a layout.  The network read by the real command is compared with an independent trace."""
import collections
import json

from . import bal, sources
from .balrun import parse_net
from .bridge import grid_to_json
from .common import Check, pmap, scratch, tool
from .ref import ALPHABET, E, X, emits, show, takes

NW = (False, False)


def read(g, w, h, flag, path):
    tool('network', ['parse', path] + (['--assume-valid-output'] if flag else []), json.dumps(grid_to_json(g, w, h)) + '\n').check()
    return parse_net(open(path).read())


def why_bad(g, w, h, flag, net):
    """None when the network describes exactly the wiring of the layout"""
    tr = bal.Trace(g, w, h)
    if len(net) != len(tr.cells):
        return '%d nodes for %d splitters' % (len(net), len(tr.cells))
    wires = [(s, d) for s, d in tr.wires if s[0] == 's' or d[0] == 's']
    if flag:
        wires += [(('in', tr.cells[i][k], None), ('s', i, k)) for i, k in tr.edge_in]
        wires += [(('s', i, k), ('out', tr.cells[i][k], None)) for i, k in tr.edge_out]
    used, made = set(), collections.defaultdict(set)
    for n, (a, b) in enumerate(net):
        used |= {c for c in a if c is not None}
        for c in b:
            if c is not None:
                made[c].add(n)
    ext_in, ext_out = used - set(made), set(made) - used
    if len(ext_in) > 1 or len(ext_out) > 1:
        return 'inputs %s and outputs %s are not one colour each' % (sorted(ext_in), sorted(ext_out))
    for c, nodes in made.items():
        if len(nodes) > 1 and c not in ext_out:
            return 'colour %s is produced by several splitters' % c
    has_in, has_out = any(s[0] == 'in' for s, _ in wires), any(d[0] == 'out' for _, d in wires)
    if has_in != bool(ext_in) or has_out != bool(ext_out):
        return 'the layout has %s inputs and %s outputs' % ('' if has_in else 'no', '' if has_out else 'no')
    ic, oc = (list(ext_in) or ['no input'])[0], (list(ext_out) or ['no output'])[0]
    if not bal._match(len(tr.cells), wires, net, ic, oc, 10 ** 6):
        return 'the connections differ'
    return None


def judge(g, w, h, flag, path, bad, what):
    net = read(g, w, h, flag, path)
    why = why_bad(g, w, h, flag, net)
    if why:
        bad.append(('network read from %s%s: %s\n%s\nread: %s' % (what, ' (outer splitters connected)' if flag else '', why, show(g, w, h), net), repr(g)))


def turns(g, w, h, n):
    from .books import turn
    for o in range(n):
        yield turn(g, w, h, o >= 4, o % 4)


def result(states, n, bad, part):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=n), part=(part, dict(layouts=states, networks=n)), violations=bad[:30])


def open_grid(item):
    """all buildable layouts with splitters; belts may cross every edge, undergrounds end inside"""
    w, h, prefix, flags = item
    bad, states, n = [], 0, 0
    with scratch() as d:
        for g in sources.legal_layouts(w, h, 4, prefix=prefix, ug_closed=True):
            if not any(t[0] == 'S' for t in g.values()):
                continue
            states += 1
            for flag in flags:
                judge(g, w, h, flag, d + '/n', bad, 'a %dx%d layout' % (w, h))
                n += 1
            if len(bad) > 30:
                break
    return result(states, n, bad, 'open %dx%d' % (w, h))


def inner(item):
    """layouts with a given number of splitters, inputs on the left and outputs on the right, turned in every way"""
    w, h, s, first, around = item
    bad, states, n = [], 0, 0
    allowed = {}
    for x in range(w):
        for y in range(h):
            lst = []
            for t in ALPHABET:
                if t[0] != 'S':
                    if emits(t) == 1 and y == 0 or emits(t) == 3 and y == h - 1 or takes(t) == 3 and y == 0 or takes(t) == 1 and y == h - 1:
                        continue
                    if x == 0 and emits(t) == 2 or x == w - 1 and takes(t) == 2:
                        continue
                lst.append(t)
            allowed[x, y] = lst
    allowed[0, 0] = [t for t in allowed[0, 0] if t == first]
    with scratch() as d:
        for g in bal.layouts(w, h, 4, allowed, s, skip_empty_ug=False):
            states += 1
            for k, l in enumerate(turns(g, w, h, 8 if around else 1)):
                judge(*l, False, d + '/n', bad, 'a layout')
                n += 1
            if len(bad) > 30:
                break
    return result(states, n, bad, 'inner %dx%d with %d splitters' % (w, h, s))


def shipped(item):
    bad, n = [], 0
    with scratch() as d:
        for label, L, g, w, h in item:
            for flag in (False, True):
                judge(g, w, h, flag, d + '/n', bad, label)
            judge({p: X if t == E else t for p, t in g.items()}, w, h, False, d + '/n', bad, label)
            n += 3
    return result(len(item), n, bad, 'shipped balancers')


def long(item):
    """long belts and snakes"""
    w, h = item
    bad = []
    g = {}
    for y in range(h - 2):
        for x in range(w):
            right = y % 2 == 0
            if right:
                g[x, y] = ('B', 0, 3) if x == w - 1 else (('B', 3, 0) if x == 0 and y else ('B', 0, 0))
            else:
                g[x, y] = ('B', 2, 3) if x == 0 else (('B', 3, 2) if x == w - 1 else ('B', 2, 2))
    y = h - 2                                               # h - 2 even: the snake arrives at the left edge
    for x in range(w):
        g[x, y] = ('B', 3, 0) if x == 0 else ('B', 0, 0)
        g[x, y + 1] = ('B', 0, 0)
    g[w - 2, y + 1], g[w - 2, y] = ('S', 0, True), ('S', 0, False)
    with scratch() as d:
        for l in turns(g, w, h, 8):
            judge(*l, False, d + '/n', bad, 'a snake')
    return result(1, 8, bad, 'long belts')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C14', 'model_checking', tier, 'all buildable layouts with splitters of the listed grids, long belts, and all shipped balancers in all orientations; the network file written by the real command is compared with the traced wiring')
    jobs = [('long', (40, 30)), ('long', (6, 8)), ('long', (30, 44))]
    lay = sources.books()
    jobs += [('shipped', lay[k::96]) for k in range(96)]
    for w, h in ((2, 2), (3, 2), (2, 3)) + (((1, 3), (1, 4), (4, 2), (2, 4)) if c.thorough else ()):
        jobs += [('open_grid', (w, h, p, (False, True))) for p in sources.prefixes(w, h, 2 if w * h > 4 else 1)]
    sizes = ((4, 3, 1, True), (3, 3, 2, True), (4, 3, 2, True)) if not c.thorough else ((4, 3, 1, True), (3, 3, 2, True), (4, 3, 2, True), (4, 4, 1, True), (4, 4, 2, True), (5, 3, 2, True), (4, 4, 3, True), (5, 4, 3, False))
    for w, h, s, around in sizes:
        jobs += [('inner', (w, h, s, t, around)) for t in ALPHABET]
    pmap(_run, jobs, c)
    c.sample('every layout of 4x3 cells with two splitters, inputs on the left, outputs on the right, in all eight orientations')
    c.sample('all shipped balancers, with and without connected outer splitters, with fillers for empty cells')
    return c.finish(['wiring is traced by mc/bal.Trace', 'colours are names: equality up to renaming of colours, order of nodes and order of the two sides'])
