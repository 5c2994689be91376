"""C10: blueprint strings.  Layouts go through the real encode and decode commands; the game's format is restated here."""
import base64
import itertools
import json
import zlib

from . import books, sources
from .bridge import from_json_tile, to_json_tile
from .common import Check, pmap, tool
from .ref import E, VEC, X, show

NAMES = {'normal': '', 'fast': 'fast-', 'express': 'express-'}
FACTORIO = {0: 2, 1: 0, 2: 6, 3: 4}                     # right, up, left, down -> the game's eighths clockwise from north
TURNS = {2: 0, 0: 1, 6: 2, 4: 3}
INSERTERS = [('I', d, k) for d in range(4) for k in (0, 1)]


def tile_json(t):
    if t[0] == 'I':
        return {'type': 'inserter', 'direction': t[1], 'insert_type': t[2]}
    return to_json_tile(t)


def json_tile(j):
    if j['type'] == 'inserter':
        return ('I', j['direction'], j['insert_type'])
    if j['type'] == 'assembling_machine':
        return ('A', j['x'], j['y'])
    return from_json_tile(j)


def line_of(g, w, h):
    return json.dumps([[{'tile': tile_json(g[x, y])} for x in range(w)] for y in range(h)])


def entities(g, level):
    """What the game expects: {(name, x, y, direction, type)}"""
    p = NAMES[level]
    out = set()
    for (x, y), t in g.items():
        cx, cy = x + 0.5, y + 0.5
        if t[0] == 'B':
            out.add((p + 'transport-belt', cx, cy, FACTORIO[t[2]], None))
        elif t[0] == 'U':
            out.add((p + 'underground-belt', cx, cy, FACTORIO[t[1]], 'input' if t[2] else 'output'))
        elif t[0] == 'S' and t[2]:
            dx, dy = VEC[(t[1] + 1) % 4]
            out.add((p + 'splitter', cx + dx / 2, cy + dy / 2, FACTORIO[t[1]], None))
        elif t[0] == 'I':                                # the game points an inserter at its pick-up side
            out.add(('long-handed-inserter' if t[2] else 'inserter', cx, cy, FACTORIO[(t[1] + 2) % 4], None))
    return out


def normal(g):
    """The layout that remains in a blueprint: no fillers, cut to its entities, curves as fed from inside."""
    g = {p: t for p, t in g.items() if t[0] not in 'EX'}
    if not g:
        return {}, 0, 0
    mx, my = min(p[0] for p in g), min(p[1] for p in g)
    g = {(x - mx, y - my): t for (x, y), t in g.items()}
    w, h = max(p[0] for p in g) + 1, max(p[1] for p in g) + 1
    books.curves(g)
    for y in range(h):
        for x in range(w):
            g.setdefault((x, y), E)
    return g, w, h


def text_of(ents, moved=(0, 0), explicit=False, book=None):
    lst = []
    for k, (name, x, y, d, typ) in enumerate(ents):
        e = {'entity_number': k + 1, 'name': name, 'position': {'x': x + moved[0], 'y': y + moved[1]}}
        if d or explicit:
            e['direction'] = d
        if typ:
            e['type'] = typ
        lst.append(e)
    raw = json.dumps({'blueprint': {'item': 'blueprint', 'version': 1, 'entities': lst}})
    return '0' + base64.b64encode(zlib.compress(raw.encode())).decode()


def parse_rows(line):
    rows = json.loads(line)
    g = {(x, y): json_tile(c['tile']) for y, row in enumerate(rows) for x, c in enumerate(row)}
    return g, len(rows[0]) if rows else 0, len(rows)


def describe(g, w, h):
    return '\n' + (show(g, w, h) if not any(t[0] in 'IA' for t in g.values()) else repr(sorted(g.items())))


def encode_part(todo, level, label, bad):
    argv = ['encode'] + (['--level', level] if level != 'normal' or label else []) + (['--label', label] if label else [])
    r = tool('blueprint', argv, '\n'.join(line_of(*l) for l in todo) + '\n').check()
    if len(r.lines) != len(todo):
        bad.append(('encode printed %d lines for %d layouts' % (len(r.lines), len(todo)), repr(todo[:3])))
        return []
    for (g, w, h), text in zip(todo, r.lines):
        try:
            b = books.decode(text)['blueprint']
            ents = b['entities']
            got = sorted((e['name'], e['position']['x'], e['position']['y'], e.get('direction', 0), e.get('type')) for e in ents)
            numbers = sorted(e['entity_number'] for e in ents)
            ok = text[0] == '0' and b['item'] == 'blueprint' and b.get('label') == label and isinstance(b['version'], int)
        except Exception as e:
            bad.append(('encode %s: not a blueprint string: %r%s' % (level, e, describe(g, w, h)), repr(g)))
            continue
        want = sorted(entities(g, level), key=str)
        if sorted(got, key=str) != want:
            bad.append(('encode %s gives wrong entities %s instead of %s for%s' % (level, [e for e in got if e not in want][:4], [e for e in want if e not in got][:4], describe(g, w, h)), repr(g)))
        elif len(set(numbers)) != len(ents) or (numbers and numbers[0] < 1) or not ok:
            bad.append(('encode %s: entity numbers %s, label %r, item %r' % (level, numbers[:9], b.get('label'), b['item']), repr(g)))
    return r.lines


def decode_part(texts, want, what, bad):
    r = tool('blueprint', ['decode'], '\n'.join(texts) + '\n').check()
    if len(r.lines) != len(texts):
        bad.append(('decode printed %d lines for %d blueprints' % (len(r.lines), len(texts)), repr(texts[:3])))
        return
    for line, (g, w, h), text in zip(r.lines, want, texts):
        got = parse_rows(line)
        if got != (g, w, h):
            bad.append(('decode (%s) gives%s\ninstead of%s' % (what, describe(*got), describe(g, w, h)), text))


def chunks(it, n=400):
    todo = []
    for v in it:
        todo.append(v)
        if len(todo) >= n:
            yield todo
            todo = []
    if todo:
        yield todo


def roundtrip(todo, levels, bad, variants=True, label=None):
    """todo: [(g, w, h)]; returns the number of blueprints that went through the product"""
    n = 0
    norm = [normal(g) for g, w, h in todo]
    for level in levels:
        texts = encode_part(todo, level, label, bad)
        if texts:
            decode_part(texts, norm, 'the encoded blueprint', bad)
        n += 2 * len(todo)
    if variants:
        for moved, flip, explicit, level in (((1000, -2000), True, True, 'express'), ((-1000000, 7), False, False, 'fast')):
            texts = [text_of(sorted(entities(g, level), key=str, reverse=flip), moved, explicit) for g, w, h in todo]
            decode_part(texts, norm, 'moved by %s, %s, %s' % (moved, 'reversed' if flip else 'sorted', level), bad)
            n += len(todo)
    return n


def result(n, states, bad, part):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=states), part=(part, dict(layouts=states, runs=n)), violations=bad[:50])


def open_grid(item):
    w, h, prefix, levels, variants = item
    bad, n, states = [], 0, 0
    for todo in chunks((g, w, h) for g in sources.legal_layouts(w, h, 4, prefix=prefix)):
        n += roundtrip(todo, levels, bad, variants)
        states += len(todo)
    return result(n, states, bad, 'buildable %dx%d' % (w, h))


def orders(item):
    """every order of listing the entities"""
    w, h, prefix = item
    bad, n = [], 0

    def each():
        for g in sources.legal_layouts(w, h, 4, prefix=prefix):
            ents = sorted(entities(g, 'fast'), key=str)
            want = normal(g)
            for p in itertools.permutations(ents):
                yield text_of(p), want
    for todo in chunks(each(), 1000):
        decode_part([t for t, _ in todo], [v for _, v in todo], 'another order', bad)
        n += len(todo)
    return result(n, n, bad, 'entity orders %dx%d' % (w, h))


NEIGHBOURS = ([E, X] + [('B', d, d) for d in range(4)] + [('U', d, k) for d in range(4) for k in (True, False)] +
              [('S', d, k) for d in range(4) for k in (True, False)] + INSERTERS[:2])


def cross(item):
    """a belt with every combination of neighbours: which way does it curve?"""
    out, first, side = item
    bad, n, states = [], 0, 0
    per = 64
    todo, G, used = [], {}, 0

    def flush():
        nonlocal G, used, n
        if used:
            w, h = 6 * 8, 6 * (per // 8)
            g = {(x, y): G.get((x, y), E) for x in range(w) for y in range(h)}
            n += roundtrip([(g, w, h)], ['normal'], bad, False)
            G, used = {}, 0
    for rest in itertools.product(side, repeat=3):
        cells = {(2, 2): ('B', out, out)}
        ok = True
        for d, t in zip(range(4), (first,) + rest):
            p = 2 + VEC[d][0], 2 + VEC[d][1]
            cells[p] = t
        for p, t in list(cells.items()):
            if t[0] == 'S':
                pd = (t[1] + 1) % 4 if t[2] else (t[1] + 3) % 4
                q = p[0] + VEC[pd][0], p[1] + VEC[pd][1]
                other = ('S', t[1], not t[2])
                if cells.get(q, other) != other or (q in cells and q not in ((1, 1), (1, 3), (3, 1), (3, 3))):
                    ok = False
                    break
                cells[q] = other
        if not ok:
            continue
        ox, oy = 6 * (used % 8), 6 * (used // 8)
        for (x, y), t in cells.items():
            G[ox + x, oy + y] = t
        used += 1
        states += 1
        if used == per:
            flush()
    flush()
    return result(n, states, bad, 'neighbourhoods of a belt')


def singles(_):
    """one entity of every kind at every place of small grids, plus every pair of inserters, belts and fillers"""
    bad, n, states = [], 0, 0
    kinds = [E, X] + [('B', d, d) for d in range(4)] + [('U', d, k) for d in range(4) for k in (True, False)] + INSERTERS
    lay = []
    for a in kinds:
        for w, h in ((1, 1), (2, 3), (5, 4), (1, 30), (30, 1)):
            for x in range(w):
                for y in range(h):
                    if w * h > 20 and (x + y) % 7:
                        continue
                    g = {(i, j): E for i in range(w) for j in range(h)}
                    g[x, y] = a
                    lay.append((g, w, h))
        for b in kinds:
            for w, h in ((2, 1), (1, 2)):
                g = {(0, 0): a, (w - 1, h - 1): b}
                if a[0] == b[0] == 'B' or 'U' in (a[0], b[0]):
                    pass
                lay.append((g, w, h))
    for d in range(4):                                   # splitters at every place
        for w, h in ((2, 2), (4, 3)):
            for x in range(w):
                for y in range(h):
                    q = x + VEC[(d + 1) % 4][0], y + VEC[(d + 1) % 4][1]
                    if 0 <= q[0] < w and 0 <= q[1] < h:
                        g = {(i, j): E for i in range(w) for j in range(h)}
                        g[x, y], g[q] = ('S', d, True), ('S', d, False)
                        lay.append((g, w, h))
    for todo in chunks(iter(lay)):
        for label in (None, 'a label', 'Ü "x" 4→4'):
            n += roundtrip(todo, list(NAMES), bad, label is None, label)
        states += len(todo)
    return result(n, states, bad, 'single entities and pairs')


def machines(_):
    """assembling machines, chests and every kind of inserter can be read"""
    bad, texts, want = [], [], []
    for x, y in ((0, 0), (5, -3), (-100, 100)):
        for lvl in '123':
            texts.append(text_of([('assembling-machine-' + lvl, 1.5, 1.5, 0, None), ('inserter', 3.5, 1.5, 6, None)], (x, y)))
            g = {(i, j): ('A', i, j) for i in range(3) for j in range(3)}
            g[3, 0], g[3, 1], g[3, 2] = E, ('I', 0, 0), E
            want.append((g, 4, 3))
        for name, kind in (('burner-inserter', 0), ('fast-inserter', 0), ('filter-inserter', 0), ('stack-inserter', 0), ('stack-filter-inserter', 0), ('inserter', 0), ('long-handed-inserter', 1)):
            for f, d in TURNS.items():
                texts.append(text_of([(name, 0.5, 0.5, f, None), ('wooden-chest', 1.5, 0.5, 0, None)], (x, y)))
                want.append(({(0, 0): ('I', (d + 2) % 4, kind), (1, 0): X}, 2, 1))
    decode_part(texts, want, 'machines', bad)
    return result(len(texts), len(texts), bad, 'machines')


def shipped(item):
    bad = []
    todo = [(g, w, h) for label, L, g, w, h in item]
    n = roundtrip(todo, list(NAMES), bad)
    return result(n, len(todo), bad, 'shipped balancers')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C10', 'model_checking', tier, 'all buildable layouts of the listed open grids, every neighbourhood of a belt, every order of the entities, every kind of entity at every place, and all shipped balancers in all orientations through the real encode and decode commands')
    jobs = [('singles', None), ('machines', None)]
    side = NEIGHBOURS if c.thorough else [E] + [('B', d, d) for d in range(4)] + [('U', d, k) for d in range(4) for k in (False,)] + [('U', 0, True), ('U', 3, True)] + [('S', d, d % 2 == 0) for d in range(4)]
    jobs += [('cross', (o, first, side)) for o in range(4) for first in NEIGHBOURS]
    for p in sources.prefixes(2, 2):
        jobs.append(('open_grid', (2, 2, p, list(NAMES), True)))
        jobs.append(('orders', (2, 2, p)))
        jobs.append(('open_grid', (1, 3, p, list(NAMES), True)))
        jobs.append(('open_grid', (3, 1, p, list(NAMES), True)))
    lay = sources.books()
    jobs += [('shipped', lay[k::64]) for k in range(64)]
    for p in sources.prefixes(3, 2, 2):
        jobs.append(('open_grid', (3, 2, p, list(NAMES) if c.thorough else ['normal'], c.thorough)))
    if c.thorough:
        for p in sources.prefixes(2, 3, 2):
            jobs.append(('open_grid', (2, 3, p, ['normal'], True)))
            jobs.append(('orders', (1, 4, p)))
            jobs.append(('orders', (5, 1, p)))
    pmap(_run, jobs, c)
    c.sample('3x2 open grid: every buildable layout encoded, its entities compared with the game format, decoded again')
    c.sample('neighbourhood: belt to the right, underground exit below, splitter half above, ...: decoded curve compared with the game rule')
    return c.finish(['the game format (names, eighths of a turn, splitter centres) is restated in mc/c10.py', 'entities of a blueprint do not overlap'])
