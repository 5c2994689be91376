"""C20: symmetry breaking.  For every buildable layout the real model is asked about the layout and its mirror image."""
import json

from . import bal, sources
from .balrun import NETS, generate, options, parse_net
from .books import turn
from .bridge import Acceptor, edge_mode, key
from .common import Check, pmap
from .ref import ALPHABET, E, Rules, emits, show, takes

from factorio_sat import optimisations
from factorio_sat.solver import Grid


def mirror(rule, g, w, h):
    if rule == 'vertical':
        return turn(g, w, h, True, 2)[0]

    def back(t):                                        # flow reversed
        if t[0] == 'B':
            return ('B', (t[2] + 2) % 4, (t[1] + 2) % 4)
        if t[0] == 'U':
            return ('U', (t[1] + 2) % 4, not t[2])
        if t[0] == 'S':
            return ('S', (t[1] + 2) % 4, not t[2])
        return t
    return {p: back(t) for p, t in turn(g, w, h, True, 0)[0].items()}


def plain(t):
    return t[:2] if t[0] == 'S' else t


def compared(rule, w, h, args):
    if rule == 'vertical':
        n = min(h, max(2, h // 2))
        rows = set(range(n)) | set(range(h - n, h))
        return [(x, y) for y in sorted(rows) for x in range(w)]
    lo, hi = args.get('min_x', 0), args.get('max_x', w - 1)
    n = min(2, (hi - lo + 1) // 2)
    cols = set(range(lo, lo + n)) | set(range(hi - n + 1, hi + 1))
    return [(x, y) for x in sorted(cols) for y in range(h)]


def looks_out(g, w, h, p):
    """a splitter half with an open edge in front or behind: whether it is connected there is not part of the layout"""
    t = g[p]
    if t[0] != 'S':
        return False
    return p[0] in (0, w - 1) if t[1] % 2 == 0 else p[1] in (0, h - 1)


def model(rule, w, h, L, args, alphabet=ALPHABET):
    grid = Grid(w, h, None, L if L is not None else float('inf'), edge_mode=edge_mode((False, False)))
    grid.prevent_intersection()
    grid.enforce_maximum_underground_length()
    n = len(grid.clauses)
    if rule == 'vertical':
        optimisations.break_vertical_symmetry(grid)
    else:
        optimisations.break_horisontal_symmetry(grid, **args)
    new = grid.clauses[n:]
    del grid.clauses[n:]
    on = grid.allocate_variable()
    grid.clauses += [[-on] + list(c) for c in new]
    acc = Acceptor(grid, alphabet)
    acc.on = on
    return acc


def judge(acc, rule, g, w, h, args, bad):
    """(kept, mirror kept)"""
    m = mirror(rule, g, w, h)
    a = [acc.sel[x, y, t] for (x, y), t in g.items()]
    b = [acc.sel[x, y, t] for (x, y), t in m.items()]
    if rule != 'vertical' and not Rules(w, h, (False, False), None).legal(m):
        return                                          # reversing the flow may make a splitter spill onto a belt
    if not acc.accepts(a) or not acc.accepts(b):
        bad.append(('%dx%d: a buildable layout or its %s mirror image is refused without symmetry breaking\n%s' % (w, h, rule, show(g, w, h)), repr(g)))
        return
    ka, kb = acc.accepts(a + [acc.on]), acc.accepts(b + [acc.on])
    if not ka and not kb:
        bad.append(('%dx%d %s: both the layout and its mirror image are removed\n%s' % (w, h, rule, show(g, w, h)), repr(g)))
    if ka and kb:
        cells = compared(rule, w, h, args)
        if any(looks_out(g, w, h, p) for p in cells) or all(plain(g[p]) == plain(m[p]) for p in cells):
            return
        bad.append(('%dx%d %s: the layout and its mirror image differ and both are kept\n%s' % (w, h, rule, show(g, w, h)), repr(g)))


def small(item):
    """all buildable layouts of small open grids, over all tiles or some"""
    rule, w, h, L, args, prefix = item[:6]
    alpha = item[6] if len(item) > 6 else ALPHABET
    acc = model(rule, w, h, L, args, sorted(set(alpha) | {t for u in alpha for t in mirror(rule, {(0, 0): u}, 1, 1).values()}))
    bad, n = [], 0
    for g in sources.legal_layouts(w, h, L, prefix=prefix, alphabet=alpha):
        judge(acc, rule, g, w, h, args, bad)
        n += 1
        if len(bad) > 10:
            break
    acc.close()
    return result(n, 4 * n, bad, '%s %dx%d' % (rule, w, h))


def inner(item):
    """layouts with inputs on the left and outputs on the right"""
    rule, w, h, s, L, args, first = item
    acc = model(rule, w, h, L, args)
    allowed = {}
    for x in range(w):
        for y in range(h):
            allowed[x, y] = [t for t in ALPHABET if t[0] == 'S' or not (emits(t) == 1 and y == 0 or emits(t) == 3 and y == h - 1 or takes(t) == 3 and y == 0 or takes(t) == 1 and y == h - 1
                                                                       or x == 0 and emits(t) == 2 or x == w - 1 and takes(t) == 2)]
    allowed[0, 0] = [t for t in allowed[0, 0] if t == first]
    R = Rules(w, h, (False, False), L)
    bad, n = [], 0
    for g in bal.layouts(w, h, L, allowed, s, skip_empty_ug=False):
        if R.legal(g):
            judge(acc, rule, g, w, h, args, bad)
            n += 1
        if len(bad) > 10:
            break
    acc.close()
    return result(n, 4 * n, bad, '%s %dx%d, %d splitters' % (rule, w, h, s))


def shipped(item):
    """the shipped balancers, each with its mirror image"""
    label, L, g, w, h = item
    bad = []
    R = Rules(w, h, (False, False), L)
    n = 0
    if R.legal(g) and h > 1 and w > 1:
        for rule in ('vertical', 'horisontal'):
            m = mirror(rule, g, w, h)
            acc = model(rule, w, h, L, {}, {p: sorted({g[p], m[p]}) for p in g})
            judge(acc, rule, g, w, h, {}, bad)
            acc.close()
            n += 1
    return result(n, 4 * n, [(label + ' ' + a, b) for a, b in bad], 'shipped balancers')


def command(item):
    """the generator with and without --break-symmetry, all solutions"""
    name, w, h, L, mode = item
    text = NETS[name]
    bad = []
    full = {k: g for k, _, g in generate(text, w, h, options(L, mode))}
    less = {k: g for k, _, g in generate(text, w, h, options(L, mode) + ['--break-symmetry'])}
    what = '%s %dx%d limit %s %s' % (name, w, h, L, mode)
    for k, g in less.items():
        if k not in full:
            bad.append(('%s: --break-symmetry adds a layout\n%s' % (what, show(g, w, h)), repr(g)))
    for k, g in full.items():
        m = mirror('vertical', g, w, h)
        km = key(m, w, h)
        if k not in less and km not in less:
            bad.append(('%s: --break-symmetry removes a layout and its mirror image\n%s' % (what, show(g, w, h)), repr(g)))
        if k in less and km in less and k != km and any(plain(g[p]) != plain(m[p]) for p in compared('vertical', w, h, {})):
            bad.append(('%s: --break-symmetry keeps a layout and its mirror image\n%s' % (what, show(g, w, h)), repr(g)))
    if len(full) and not less:
        bad.append(('%s: --break-symmetry removes everything' % what, text))
    return result(len(full), len(full) + len(less), bad, 'belt_balancer --break-symmetry')


def result(states, n, bad, part):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=states), part=(part, dict(layouts=states)), violations=bad[:20])


TALL = [E, ('B', 0, 0), ('B', 3, 3), ('B', 3, 0), ('U', 1, True), ('U', 1, False)]


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C20', 'model_checking', tier, 'every buildable layout of the listed grids: the layout and its mirror image are both put to the real model with symmetry breaking on')
    jobs = []
    for name, w, h, L, mode in (('2x2', 4, 2, 4, 'straight'), ('2x2', 4, 3, 4, 'straight'), ('1x2', 4, 3, 4, 'straight'), ('2x2', 4, 4, 2, 'aligned'), ('loop', 5, 3, 4, 'straight'), ('2x2', 4, 4, 4, '180'), ('1x2', 4, 4, 4, '180')):
        if name in NETS:
            jobs.append(('command', (name, w, h, L, mode)))
    lay = sources.books(1)
    jobs += [('shipped', l) for l in lay[::1 if c.thorough else 4]]
    rules = [('vertical', {}), ('horisontal', {})]
    for rule, args in rules:
        for p in sources.prefixes(2, 2):
            jobs += [('small', (rule, 2, 2, 4, args, p))]
            if rule == 'vertical':
                jobs += [('small', (rule, 1, 3, 4, args, p)), ('small', (rule, 1, 4, 4, args, p))]
            else:
                jobs += [('small', (rule, 3, 1, 4, args, p)), ('small', (rule, 4, 1, 4, args, p)), ('small', (rule, 4, 1, 4, dict(min_x=1, max_x=2), p))]
        w, h = (2, 3) if rule == 'vertical' else (3, 2)
        for p in sources.prefixes(w, h, 2):
            jobs.append(('small', (rule, w, h, 4, args, p)))
        for w, h, s in ((4, 3, 1), (4, 3, 2), (3, 4, 1)) + (((4, 4, 1), (4, 4, 2), (5, 3, 2), (3, 5, 1), (4, 5, 2)) if c.thorough else ()):
            jobs += [('inner', (rule, w, h, s, 4, args, t)) for t in ALPHABET]
        for k in ((6, 7, 8) if not c.thorough else (6, 7, 8, 9)):
            o = (k, 1) if rule != 'vertical' else (1, k)
            for t in TALL:
                jobs.append(('small', (rule,) + o + (4, args, (t,), TALL)))
        if True:
            for p in sources.prefixes(1, 5, 2):
                jobs.append(('small', (rule,) + ((1, 5) if rule == 'vertical' else (5, 1)) + (4, args, p)))
    pmap(_run, jobs, c)
    c.sample('vertical 2x3: every buildable open layout, kept or its mirror image kept')
    return c.finish(['what is compared: the outer rows (half of them, at least two) for vertical, the outer two columns for horizontal symmetry; not which half of a splitter'])
