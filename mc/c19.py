"""C19: queries and the crosstable.  All small databases through the real commands, against a reference that only knows inference."""
import collections
import itertools
import json
import os
import re

from . import optrun as o
from .balrun import shipped
from .bridge import grid_from_json
from .common import Check, REPO, pmap, scratch, tool
from .books import decode, read_entities

TEXT = {'2x2': '0 0 1 1\n', '1x2': '-1 0 1 1\n', '3x3': shipped('3x3'), '1x1': '-1 0 1 1\n1 1 -1 2\n'}
LEVELS = ((4, 'normal', '\U0001f7e8', 'transport-belt'), (6, 'fast', '\U0001f7e5', 'fast-transport-belt'), (8, 'express', '\U0001f7e6', 'express-transport-belt'))
CROSS, UNKNOWN = '\u274c', '\u2754'


def shape(text):
    nodes = [list(map(int, l.split())) for l in text.splitlines() if l.strip() and not l.startswith('#')]
    occ = {}
    for a, b, c, d in nodes:
        for q in (a, b):
            occ[q] = occ.get(q, 0) + 1
        for q in (c, d):
            occ[q] = occ.get(q, 0) - 1
    occ.pop(-1, None)
    return len(nodes), max(max(occ.values()), -min(occ.values()))


def layout(number, w, h):
    """belts whose directions spell the number"""
    rows = []
    for y in range(h):
        row = []
        for x in range(w):
            d = number % 4
            number //= 4
            row.append({'tile': {'type': 'belt', 'input_direction': d, 'output_direction': d}})
        rows.append(row)
    assert number == 0
    return rows


def directions(rows):
    return tuple(tuple(c['tile']['output_direction'] for c in row) for row in rows)


def consistent(known):
    """no size known to be impossible may be implied by a possible one"""
    for a, ya in known.items():
        for b, yb in known.items():
            if ya and not yb and all(p <= q for p, q in zip(a, b)):
                return False
    return True


def databases(text, points, most):
    n, least = shape(text)
    for r in range(most + 1):
        for pts in itertools.combinations(points, r):
            for vals in itertools.product((False, True), repeat=r):
                known = dict(zip(pts, vals))
                if consistent(known) and not any(yes and ((w - 2) * h < 2 * n or h < least) for (_, w, h), yes in known.items()):
                    yield known


def loss(objective, size):
    _, w, h = size
    return (w - 2) * h if objective == 'area' else (h, w)


def searched(objective, text, u, upto):
    """sizes the optimisation goes through up to a loss (inclusive)"""
    n, least = shape(text)
    for h in range(least, (2 * least if objective == 'area' else least) + 1):
        for w in range(3, 200):
            s = (u, w, h)
            if loss(objective, s) > upto:
                break
            if (w - 2) * h >= 2 * n:
                yield s


def expected(known, text, objective, u, imperfect):
    """(sizes one of which is to be printed, whether nothing may be printed as well)"""
    sols = [s for s, yes in known.items() if yes and s[0] <= u]
    if not sols:
        return set(), True
    best = min(loss(objective, s) for s in sols)
    cands = {s for s in sols if loss(objective, s) == best}
    if imperfect:
        return cands, False
    n, least = shape(text)
    state = [(loss(objective, s), o.implied(s, known)) for s in searched(objective, text, u, best)]
    if any(l < best and v is not False for l, v in state) or not any(v for _, v in state):
        return set(), True
    return cands, any(v is None for _, v in state)          # another shape of the same area untried: optimal all the same, but nothing demands an answer


def order_key(name):
    m = re.match(r'(\d+)[x-](\d+)(.*)', name)
    return (0, int(m.group(1)), int(m.group(2)), m.group(3)) if m else (1, 0, 0, name)


def make(d, entries):
    """entries: {name: (text, known)}; returns {name: {size: layout rows}}"""
    os.mkdir(d + '/networks')
    data, sols = {}, {}
    number = collections.Counter()
    for name, (text, known) in entries.items():
        with open(d + '/networks/' + name, 'w') as f:
            f.write(text)
        sols[name] = {}
        for s, yes in known.items():
            if yes:
                number[s[1:]] += 1
                sols[name][s] = layout(number[s[1:]], s[1], s[2])
        data[name] = {'exist': {','.join(map(str, s)): v for s, v in known.items()}, 'solutions': {','.join(map(str, s)): v for s, v in sols[name].items()}}
    with open(d + '/db.json', 'w') as f:
        json.dump(data, f)
    return sols


def command(d, *argv):
    return tool('calculate_optimal', ['--database', 'db.json'] + list(argv), cwd=d).check()


def query(d, entries, sols, objective, u, imperfect, blueprints, bad):
    argv = ['query', u, objective] + (['--allow-imperfect'] if imperfect else []) + (['--export-blueprints'] if blueprints else [])
    what = ' '.join(map(str, argv))
    got = {}
    pos = []
    owner = {directions(rows): (name, s) for name, r in sols.items() for s, rows in r.items()}
    for line in command(d, *argv).lines:
        if blueprints:
            bp = decode(line)['blueprint']
            ents = bp['entities']
            g, w, h = read_entities(ents)
            key = tuple(tuple(g[x, y][2] for x in range(w)) for y in range(h))
            want = next((b for l, _, _, b in LEVELS if u <= l), LEVELS[-1][3])
            if {e['name'] for e in ents} != {want}:
                bad.append(('%s: exported with %s, expected %s' % (what, sorted({e['name'] for e in ents}), want), line))
        else:
            key = directions(json.loads(line))
        if key not in owner:
            bad.append(('%s: prints a layout that is not in the database' % what, line[:500]))
            continue
        name, size = owner[key]
        if blueprints and re.fullmatch(r'\d+x\d+', name) and bp.get('label') != name.replace('x', ' to '):
            bad.append(('%s: the blueprint of %s is labelled %r' % (what, name, bp.get('label')), line))
        if name in got:
            bad.append(('%s: prints %s twice' % (what, name), None))
        got[name] = size
        pos.append(name)
    if pos != sorted(pos, key=order_key):
        bad.append(('%s: printed in the order %s' % (what, pos[:20]), None))
    for name, (text, known) in entries.items():
        want, may_not = expected(known, text, objective, u, imperfect)
        if name in got and got[name] not in want:
            bad.append(('%s: with the knowledge %s prints the solution of size %s, expected %s' % (what, known, got[name], sorted(want) or 'nothing'), None))
        elif name not in got and not may_not:
            bad.append(('%s: with the knowledge %s prints nothing, expected %s' % (what, known, sorted(want)), None))


def cell(known, w, h):
    for l, _, c, _ in LEVELS:
        if o.implied((l, w, h), known):
            return c
    return CROSS if all(o.implied((l, w, h), known) is False for l, _, _, _ in LEVELS) else UNKNOWN


def parse_table(text):
    """{name: {(interior width, height): symbol}} and the order of the headings"""
    res, names, cols = {}, [], None
    for line in text.splitlines():
        if line.startswith('## '):
            names.append(line[3:].strip())
            res[names[-1]] = {}
            cols = None
        elif line.startswith('|'):
            parts = [p.strip() for p in line.strip().strip('|').split('|')]
            if cols is None:
                cols = [int(p) for p in parts[1:]]
            elif set(''.join(parts)) <= set('-:'):
                continue
            else:
                for c, p in zip(cols, parts[1:]):
                    res[names[-1]][c, int(parts[0])] = p
        elif line.strip():
            raise ValueError('unexpected line %r' % line)
    return res, names


def crosstable(d, entries, before, bad):
    if before is not None:
        with open(d + '/table.md', 'w', newline='') as f:
            f.write(before)
    command(d, 'export-crosstable', 'table.md')
    with open(d + '/table.md', newline='') as f:
        text = f.read()
    keep = []
    for line in (before or '').splitlines(True):
        if line.startswith('# Balancers'):
            break
        keep.append(line)
    keep = ''.join(keep)
    what = 'export-crosstable over %r' % before
    head = re.search(r'^# Balancers\n', text, re.M)
    if head is None:
        bad.append(('%s: there is no heading line: %r' % (what, text[:200]), None))
        return
    pre = text[:head.start()]
    if pre != keep and pre != keep + '\n':
        bad.append(('%s: the text before the heading becomes %r' % (what, pre[:200]), None))
    table, names = parse_table(text[head.end():])
    if names != sorted(names, key=order_key):
        bad.append(('%s: networks in the order %s' % (what, names[:20]), None))
    for name, (t, known) in entries.items():
        if not known:
            continue
        if names.count(name) != 1:
            bad.append(('%s: %d tables for %s' % (what, names.count(name), name), None))
            continue
        _, least = shape(t)
        cells = table[name]
        for (_, w, h) in known:
            if h >= least and (w - 2, h) not in cells:
                bad.append(('%s: the table of a network with the knowledge %s does not show size %s' % (what, known, (w, h)), None))
        for (w, h), c in cells.items():
            want = cell(known, w + 2, h)
            if c != want:
                bad.append(('%s: with the knowledge %s the table shows %s for width %d height %d, expected %s' % (what, known, c, w, h, want), None))
    return text


def result(states, n, bad, part):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=n), part=(part, dict(databases=states, commands=n)), violations=bad[:10])


def sweep(item):
    """a slice of all databases over the points, many per run (each is its own network)"""
    key, points, most, k, parts, lengths = item
    text = TEXT[key]
    bad, n, st = [], 0, 0
    dbs = itertools.islice(databases(text, points, most), k, None, parts)
    while True:
        chunk = list(itertools.islice(dbs, 30 if key == '1x1' else 250))
        if not chunk or len(bad) > 5:
            break
        entries = {'%dx%d' % (1 + i // 16, 1 + i % 16): (text, known) for i, known in enumerate(chunk)}
        st += len(chunk)
        with scratch() as d:
            sols = make(d, entries)
            for objective in ('area', 'length'):
                for u in lengths:
                    for imperfect in (False, True):
                        query(d, entries, sols, objective, u, imperfect, False, bad)
                        n += 1
                    query(d, entries, sols, objective, u, True, True, bad)
                    n += 1
            crosstable(d, entries, None, bad)
            n += 1
    return result(st, n, bad, 'all databases')


NAMES = ['2x2', '10x10', '2x10', '10x2', '1x2', '2-2', '2x2b', '2x2a', 'special', 'another', '1x1 fast', '12x3', '3x12', '02x3']


def names(item):
    """the order of networks, for all choices of three names"""
    bad, n = [], 0
    known = {(4, 3, 2): True}
    for combo in itertools.combinations(NAMES, 3):
        entries = {q: (TEXT['2x2'], known) for q in combo}
        with scratch() as d:
            sols = make(d, entries)
            query(d, entries, sols, 'area', 4, False, False, bad)
            query(d, entries, sols, 'length', 4, False, True, bad)
            crosstable(d, entries, None, bad)
            n += 3
        if len(bad) > 5:
            break
    return result(n, n, bad, 'names')


LINES = ['\n', 'text\n', '# Title\n', '# Balancers\n', '## Balancers\n', ' # Balancers\n', '| a | b |\n', '## 2x2\n']


def preambles(item):
    """what was in the file before: all sequences of lines, with and without an end of line; exported twice"""
    first, depth = item
    bad, n = [], 0
    entries = {'2x2': (TEXT['2x2'], {(4, 4, 2): True, (8, 3, 2): False}), '1x2': (TEXT['1x2'], {})}
    with scratch() as d:
        make(d, entries)
        for r in range(depth + 1):
            for seq in itertools.product(LINES, repeat=r):
                before = ''.join((first,) + seq)
                for b in (before, before[:-1]):
                    if not b and r + len(first) > 1:
                        continue
                    text = crosstable(d, entries, b, bad)
                    n += 2
                    if text is not None and crosstable(d, entries, text, bad) != text:
                        bad.append(('export-crosstable over %r: a second export changes the file' % b, None))
                    if len(bad) > 5:
                        return result(n, n, bad, 'preambles')
    return result(n, n, bad, 'preambles')


def limits(item):
    """every underground limit: which solutions may be used and which belt level an export gets"""
    bad, n = [], 0
    for a, b in itertools.product(range(1, 11), repeat=2):
        known = {(a, 4, 2): True, (b, 3, 2): True} if a != b else {(a, 3, 2): True}
        if not consistent(known):
            continue
        entries = {'2x2': (TEXT['2x2'], known)}
        with scratch() as d:
            sols = make(d, entries)
            for u in range(1, 12):
                for objective in ('area', 'length'):
                    for imperfect in (False, True):
                        for bp in (False, True):
                            query(d, entries, sols, objective, u, imperfect, bp, bad)
                            n += 1
        if len(bad) > 5:
            break
    return result(n, n, bad, 'limits')


def database(item):
    """the database that ships with the program"""
    bad, n = [], 0
    with open(os.path.join(REPO, 'optimal_balancers.json')) as f:
        data = json.load(f)
    entries, sols = {}, {}
    for name in os.listdir(os.path.join(REPO, 'networks')):
        it = data.get(name, {})
        known = {tuple(map(int, k.split(','))): v for k, v in it.get('exist', {}).items()}
        entries[name] = (shipped(name), known)
        sols[name] = {tuple(map(int, k.split(','))): v for k, v in it.get('solutions', {}).items()}
    owner = {}
    for name, r in sols.items():
        for s, rows in r.items():
            owner.setdefault(json.dumps(rows), []).append((name, s))
    for u in (4, 5, 6, 7, 8, 9):
        for objective in ('area', 'length'):
            for imperfect in (False, True):
                argv = ['query', u, objective] + (['--allow-imperfect'] if imperfect else [])
                lines = tool('calculate_optimal', ['--database', os.path.join(REPO, 'optimal_balancers.json')] + argv, cwd=REPO).check().lines
                n += 1
                what = 'the shipped database, ' + ' '.join(map(str, argv))
                got = []
                for line in lines:
                    who = owner.get(json.dumps(json.loads(line)))
                    if who is None:
                        bad.append(('%s: prints a layout that is not in the database' % what, line[:300]))
                        continue
                    got.append(who)
                want = [(name, expected({s: True for s in sols[name]} | {s: v for s, v in entries[name][1].items() if not v or s in sols[name]}, entries[name][0], objective, u, imperfect))
                        for name in sorted(entries, key=order_key)]
                pos = 0
                for name, (cands, may_not) in want:
                    ok = pos < len(got) and any(a == name and s in cands for a, s in got[pos])
                    if ok:
                        pos += 1
                    elif not may_not:
                        bad.append(('%s: nothing or another solution for %s, expected %s' % (what, name, sorted(cands)), None))
                if pos != len(got):
                    bad.append(('%s: prints %s where nothing was expected' % (what, got[pos]), None))
    return result(n, n, bad, 'shipped database')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C19', 'model_checking', tier, 'all consistent databases of up to the listed number of known sizes over a size range, every objective, limit and option; all file contents of up to the listed number of lines')
    t = c.thorough
    P = 16
    pts = [(u, w, h) for u in (4, 6, 8) for w in (3, 4, 5) for h in (2, 3)]
    wide = [(u, w, h) for u in (4, 8) for w in (3, 4, 5, 6) for h in (1, 2, 3)]
    odd = [(u, w, h) for u in (1, 5, 7, 10) for w in (3, 4) for h in (2, 4)]
    jobs = [('database', None), ('names', None), ('limits', None)]
    jobs += [('sweep', ('2x2', pts, 4 if t else 3, k, P, (4, 6, 8))) for k in range(P)]
    jobs += [('sweep', ('1x1', wide, 3, k, P, (4, 8))) for k in range(P)]
    jobs += [('sweep', ('1x2', odd, 4 if t else 3, k, P, (1, 5, 7, 10))) for k in range(P)]
    if t:
        three = [(u, w, h) for u in (4, 6) for w in (4, 5, 6) for h in (3, 4, 5, 6)]
        jobs += [('sweep', ('3x3', three, 3, k, P, (4, 6, 8))) for k in range(P)]
    jobs += [('preambles', (l, 3 if t else 2)) for l in LINES]
    pmap(_run, jobs, c)
    c.sample('2x2 with {(4, 4, 2): False, (8, 3, 2): True, (6, 5, 3): True}: query 6 area')
    c.sample("export over '# Title\\ntext' without an end of line, twice")
    return c.finish(['databases are consistent: no size known impossible is implied possible'])
