"""C11: text drawings and JSON, including the older cell formats."""
import itertools
import json

from . import books, sources
from .bridge import grid_from_json, to_json_tile
from .c10 import INSERTERS, chunks, entities
from .common import Check, pmap, tool
from .ref import ALPHABET, BELTS, E, SPLITS, UGS, X, show

ALL = ALPHABET + [X]


def jline(g, w, h):
    return json.dumps([[{'tile': to_json_tile(g[x, y])} for x in range(w)] for y in range(h)])


def drawings(out):
    """Split what the drawing command printed into drawings; a drawing ends with its lower right corner."""
    res, cur = [], []
    for line in out.split('\n'):
        cur.append(line)
        if line.endswith('\u2518'):
            res.append('\n'.join(cur))
            cur = []
    return res


def draw_and_read(todo, bad, seen=None):
    r = tool('stringifier', ['encode'], '\n'.join(jline(*l) for l in todo) + '\n').check()
    pics = drawings(r.out)
    if len(pics) != len(todo):
        bad.append(('%d drawings of %d layouts' % (len(pics), len(todo)), repr(todo[:2])))
        return
    if len(set(pics)) != len(set((tuple(sorted(g.items())), w, h) for g, w, h in todo)):
        byp = {}
        for l, p in zip(todo, pics):
            q = byp.setdefault(p, l)
            if q != l:
                bad.append(('two layouts have the same drawing:\n%s\nand\n%s\n%s' % (show(*q), show(*l), p), repr((q, l))))
                break
    r = tool('stringifier', ['decode'], '\n'.join(pics) + '\n').check()
    if len(r.lines) != len(todo):
        bad.append(('%d layouts read from %d drawings' % (len(r.lines), len(todo)), repr(todo[:2])))
        return
    for (g, w, h), line, p in zip(todo, r.lines, pics):
        got = grid_from_json(json.loads(line))
        if got != (g, w, h):
            bad.append(('drawn and read back\n%s\ngives\n%s\ndrawing\n%s' % (show(g, w, h), show(*got), p), repr(g)))


def result(states, n, bad, part):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=states), part=(part, dict(layouts=states)), violations=bad[:50])


def every(item):
    """all layouts of a size over an alphabet, buildable or not"""
    w, h, first, alpha = item
    bad, states = [], 0
    cells = [(x, y) for y in range(h) for x in range(w)]
    for todo in chunks(((dict(zip(cells, first + rest)), w, h) for rest in itertools.product(alpha, repeat=w * h - len(first))), 2000):
        draw_and_read(todo, bad)
        states += len(todo)
        if len(bad) > 20:
            break
    return result(states, 2 * states, bad, 'all %dx%d over %d tiles' % (w, h, len(alpha)))


def packed(item):
    """every tile at every place of larger grids: grid k holds tile (k + position) mod n at each position"""
    bad, states = [], 0
    for w, h in item:
        todo = []
        for k in range(len(ALL)):
            for step in (1, 7):
                todo.append(({(x, y): ALL[(k + step * (y * w + x)) % len(ALL)] for x in range(w) for y in range(h)}, w, h))
        for x in range(w):
            for y in range(h):
                g = {(i, j): E for i in range(w) for j in range(h)}
                g[x, y] = BELTS[(x * 5 + y) % len(BELTS)]
                todo.append((g, w, h))
        draw_and_read(todo, bad)
        states += len(todo)
    return result(states, 2 * states, bad, 'every tile at every place')


def buildable(item):
    w, h, prefix = item
    bad, states = [], 0
    for todo in chunks(((g, w, h) for g in sources.legal_layouts(w, h, 4, prefix=prefix)), 1000):
        draw_and_read(todo, bad)
        states += len(todo)
    return result(states, 2 * states, bad, 'buildable %dx%d' % (w, h))


def shipped(item):
    bad = []
    draw_and_read([(g, w, h) for label, L, g, w, h in item], bad)
    return result(len(item), 2 * len(item), bad, 'shipped balancers')


# -- JSON cells in every format ----------------------------------------------------------------------

def old_cells():
    """[(cell without an explicit tile, the tile it means)] for both older formats"""
    res = []
    none = dict(is_empty=False, is_belt=False, is_underground_in=False, is_underground_out=False, is_splitter=None, is_inserter=None,
                is_assembling_machine=False, input_direction=None, output_direction=None, colour_direction=None)
    res.append((dict(none, is_empty=True), E))
    for t in BELTS:
        res.append((dict(none, is_belt=True, input_direction=t[1], output_direction=t[2]), t))
        res.append((dict(none, is_belt=True, input_direction=t[1], output_direction=None, colour_direction=t[2]), t))
        res.append((dict(none, is_belt=True, input_direction=None, output_direction=t[2], colour_direction=t[1]), t))
    for d in range(4):
        res.append((dict(none, is_belt=True, colour_direction=d), ('B', d, d)))
    for t in UGS:
        if t[2]:
            res.append((dict(none, is_underground_in=True, input_direction=t[1]), t))
        else:
            res.append((dict(none, is_underground_out=True, output_direction=t[1]), t))
    for t in SPLITS:
        for same in ((True, True), (True, False), (False, True)):
            dirs = dict(input_direction=t[1] if same[0] else None, output_direction=t[1] if same[1] else None)
            if t[2]:
                res.append((dict(none, **dict(dirs, colour_direction=t[1], is_splitter=1)), t))
            else:
                res.append((dict(none, **dict(dirs, colour_direction=t[1], is_splitter=0)), t))
            older = dict(none, **dict(dirs, is_splitter=True, splitter_direction=t[1], splitter_side=int(t[2])))
            del older['colour_direction']
            res.append((older, t))
            res.append((dict(dirs, is_splitter=True, is_splitter_head=t[2]), t))
    for t in INSERTERS:
        res.append((dict(none, is_inserter=t[2], inserter_direction=t[1]), t))
    first = dict(is_splitter=False, is_splitter_head=False)
    res.append((dict(first, input_direction=None, output_direction=None), E))
    for t in BELTS:
        res.append((dict(first, input_direction=t[1], output_direction=t[2]), t))
    for t in UGS:
        res.append((dict(first, input_direction=t[1] if t[2] else None, output_direction=None if t[2] else t[1]), t))
    return res


def old(_):
    """a cell in an older format is drawn and encoded exactly like the same cell with an explicit tile"""
    bad = []
    cells = old_cells()
    lines, want = [], []
    for cell, t in cells:
        lines.append(json.dumps([[cell]]))
        want.append(t)
    draws = [(l, t) for l, t in zip(lines, want) if t[0] != 'I']
    a = tool('stringifier', ['encode'], '\n'.join(l for l, _ in draws) + '\n').check()
    b = tool('stringifier', ['encode'], '\n'.join(json.dumps([[{'tile': to_json_tile(t)}]]) for _, t in draws) + '\n').check()
    pa, pb = drawings(a.out), drawings(b.out)
    if len(pa) != len(draws) or len(pb) != len(draws):
        bad.append(('%d and %d drawings of %d cells' % (len(pa), len(pb), len(draws)), None))
    for (l, t), p, q in zip(draws, pa, pb):
        if p != q:
            bad.append(('cell %s is drawn as\n%s\ninstead of\n%s' % (l, p, q), l))
    e = tool('blueprint', ['encode'], '\n'.join(lines) + '\n').check()
    for l, t, text in zip(lines, want, e.lines):
        got = sorted((x['name'], x['position']['x'], x['position']['y'], x.get('direction', 0), x.get('type')) for x in books.decode(text)['blueprint']['entities'])
        if got != sorted(entities({(0, 0): t}, 'normal')):
            bad.append(('cell %s is encoded as %s' % (l, got), l))
    # rows mixing the formats
    mixed = [(c, t) for c, t in cells if t[0] != 'I']
    rows = [json.dumps([[{'tile': to_json_tile(t)}, c, {'tile': to_json_tile(X)}] for c, t in mixed])]
    got = tool('stringifier', ['encode'], rows[0] + '\n').check()
    ref = tool('stringifier', ['encode'], json.dumps([[{'tile': to_json_tile(t)}, {'tile': to_json_tile(t)}, {'tile': to_json_tile(X)}] for c, t in mixed]) + '\n').check()
    if got.out != ref.out:
        bad.append(('rows mixing the formats are drawn differently\n' + got.out[:600] + '\n' + ref.out[:600], None))
    return result(len(cells), 3 * len(cells), bad, 'older cell formats')


def json_identity(_):
    """every tile read from and written to JSON by the transformation command without a transformation"""
    bad = []
    tiles = [to_json_tile(t) for t in ALL] + [{'type': 'inserter', 'direction': t[1], 'insert_type': t[2]} for t in INSERTERS]
    tiles += [{'type': 'assembling_machine', 'x': x, 'y': y} for x in range(3) for y in range(3)]
    rows = [[[{'tile': t}]] for t in tiles] + [[[{'tile': t}, {'tile': u}]] for t in tiles for u in tiles]
    rows += [[[{'tile': t}], [{'tile': u}]] for t in tiles for u in tiles]
    r = tool('rotate', ['no_op'], '\n'.join(json.dumps(v) for v in rows) + '\n').check()
    for v, line in zip(rows, r.lines):
        if json.loads(line) != v:
            bad.append(('JSON %s is written back as %s' % (json.dumps(v), line), json.dumps(v)))
    if len(r.lines) != len(rows):
        bad.append(('%d lines for %d layouts' % (len(r.lines), len(rows)), None))
    return result(len(rows), len(rows), bad, 'JSON read and written')


def blanks(item):
    """white space around the lines of a drawing does not matter"""
    bad, n = [], 0
    for w, h in item:
        todo = [({(x, y): ALL[(k + 3 * (y * w + x)) % len(ALL)] for x in range(w) for y in range(h)}, w, h) for k in range(len(ALL))] + [({(x, y): E for x in range(w) for y in range(h)}, w, h)]
        pics = drawings(tool('stringifier', ['encode'], '\n'.join(jline(*l) for l in todo) + '\n').check().out)
        for before, after in itertools.product(('', ' ', '    ', '\t', ' \t'), ('', ' ', '\t', '\r')):
            text = ''.join(''.join(before + line + after + '\n' for line in p.split('\n')) for p in pics)
            r = tool('stringifier', ['decode'], text)
            n += len(todo)
            got = [grid_from_json(json.loads(line)) for line in r.lines]
            if got != todo:
                bad.append(('drawings with %r before and %r after each line are not read as the same drawings without' % (before, after), text[:400]))
    return result(n, n, bad, 'white space around drawings')


def undrawable(_):
    """a tile that has no picture is never drawn like another one"""
    bad, n = [], 0
    odd = [{'type': 'inserter', 'direction': t[1], 'insert_type': t[2]} for t in INSERTERS] + [{'type': 'assembling_machine', 'x': x, 'y': y} for x in range(3) for y in range(3)]
    alone = drawings(tool('stringifier', ['encode'], '\n'.join(jline({(0, 0): t}, 1, 1) for t in ALL) + '\n').check().out)
    pics = drawings(tool('stringifier', ['encode'], '\n'.join(json.dumps([[{'tile': t}]]) for t in odd) + '\n').check().out)
    if len(pics) != len(odd):
        bad.append(('%d drawings of %d layouts' % (len(pics), len(odd)), repr(odd[:2])))
    for t, p in zip(odd, pics):
        n += 1
        if p in alone:
            bad.append(('%s is drawn like %s\n%s' % (t, show({(0, 0): ALL[alone.index(p)]}, 1, 1), p), repr(t)))
    return result(n, n, bad, 'tiles without a picture')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C11', 'model_checking', tier, 'all layouts of the listed sizes over the whole tile alphabet, buildable layouts, every tile at every place of larger grids and all shipped balancers drawn and read back; every cell of the older formats')
    jobs = [('old', None), ('json_identity', None), ('undrawable', None)] + [('blanks', [s]) for s in ((1, 1), (2, 1), (1, 2), (3, 2), (5, 4))]
    for t in ALL:
        jobs.append(('every', (1, 3, (t,), ALL)))
        jobs.append(('every', (3, 1, (t,), ALL)))
    jobs += [('every', (1, 1, (), ALL)), ('every', (2, 1, (), ALL)), ('every', (1, 2, (), ALL))]
    small = ALL if c.thorough else [E, X, ('B', 0, 0), ('B', 1, 2), ('B', 3, 2), ('U', 1, True), ('U', 0, False), ('S', 2, True), ('S', 3, False)]
    for t in ALL:
        for u in (ALL if c.thorough else [None]):
            jobs.append(('every', (2, 2, (t,) if u is None else (t, u), small)))
    jobs += [('packed', [(w, h) for w in range(1, 11 if c.thorough else 8)]) for h in range(1, 13 if c.thorough else 8)]
    jobs += [('packed', [(40, 1), (1, 40), (30, 30)])]
    lay = sources.books()
    jobs += [('shipped', lay[k::64]) for k in range(64)]
    for p in sources.prefixes(3, 2, 2):
        if c.thorough or p[0][0] in 'SU':
            jobs.append(('buildable', (3, 2, p)))
    pmap(_run, jobs, c)
    c.sample('all 27,000 layouts of 1x3 cells over the 30 tiles, drawn in one stream and read back')
    c.sample(json.dumps(old_cells()[5][0]) + ' means ' + repr(old_cells()[5][1]))
    return c.finish(['what the cells of the older formats mean is restated in mc/c11.py'])
