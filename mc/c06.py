"""C06: interchanges.  Every printed layout of the listed sizes and options is traced."""
import itertools
import json
import os
import sys

from . import bal
from . import patterns as P
from .bridge import Acceptor, grid_from_json, to_json_tile
from .common import Check, pmap, scratch, tool
from .ref import ALPHABET, E, Rules, VEC, emits, pair_ok, show, takes

NW = (False, False)
CLOSED = (False, True, False, True)


def reversed_turn(g, w, h):
    """turned by 180 degrees with the flow reversed"""
    def f(t):
        if t[0] == 'B':
            return ('B', t[2], t[1])
        if t[0] == 'U':
            return ('U', t[1], not t[2])
        return t
    return {(w - 1 - x, h - 1 - y): f(t) for (x, y), t in g.items()}


def why_bad(g, w, h, L, alternating, rot):
    if any(t[0] == 'S' for t in g.values()):
        return 'has a splitter'
    if not Rules(w, h, NW, L, belt_block=CLOSED, ug_block=(True,) * 4).legal(g):
        return 'is not buildable'
    tr = bal.Trace(g, w, h)
    ins = sorted((s[1], s[2]) for s, d in tr.wires)
    if ins != [((0, y), 0) for y in range(h)]:
        return 'does not take all its rows as inputs on the left'
    out = {}
    for s, d in tr.wires:
        if d[0] != 'out' or d[1][0] != w - 1 or d[2] != 0:
            return 'does not deliver an input to the right'
        out[d[1][1]] = s[1][1]
    if sorted(out) != list(range(h)):
        return 'does not use all its rows as outputs'
    for y in range(0, h, 2):
        halves = [out[y] >= h // 2, out[y + 1] >= h // 2]
        if sum(halves) != 1 or (alternating and halves != [False, True]):
            return 'gives output pair %d-%d belts of the halves %s' % (y, y + 1, halves)
    if rot and reversed_turn(g, w, h) != g:
        return 'is not rotationally symmetric'
    return None


def check(item):
    w, h, L, opts, limit, partial = item
    argv = [w, h, '--underground-length', L] + list(opts)
    with scratch() as d:
        if partial is not None:
            rows = [[{'tile': {'type': 'empty'}} for _ in range(w)] for _ in range(h)]
            for (x, y), t in partial.items():
                rows[y][x] = {'tile': to_json_tile(t)}
            open(d + '/p', 'w').write(json.dumps(rows))
            argv += ['--partial', d + '/p']
        r = tool('interchange', argv, limit=limit).check()
    bad = []
    seen = set()
    for line in r.lines:
        g, gw, gh = grid_from_json(json.loads(line))
        why = 'has the wrong size' if (gw, gh) != (w, h) else why_bad(g, w, h, L, '--alternating' in opts, '--rot-symmetry' in opts)
        k = tuple(sorted(g.items()))
        if why is None and k in seen:
            why = 'was printed before'
        seen.add(k)
        if why is None and partial is not None:
            if any(t != ('X',) and g[c] != t or t == ('X',) and g[c] != E for c, t in partial.items()):
                why = 'does not keep the partial layout %s' % partial
        if why:
            bad.append(('interchange %s: a printed layout %s\n%s' % (' '.join(map(str, argv[:4 + len(opts)])), why, show(g, gw, gh)), repr((item, g))))
            if len(bad) > 2:
                break
    if '--all' not in opts and len(r.lines) > 1:
        bad.append(('printed several layouts without --all', repr(item)))
    return dict(counts=dict(states=len(r.lines), transitions=len(r.lines), traces_validated_against_impl=len(r.lines)),
                part=('partial' if partial is not None else ' '.join(o for o in opts if o != '--all') or 'plain', dict(runs=1, layouts=len(r.lines))), violations=bad,
                samples=[show(grid_from_json(json.loads(q))[0], w, h) for q in r.lines[:1]])


def select(item):
    """alternation and partial layouts select exactly the layouts that satisfy them"""
    w, h, L, cells = item

    def layouts(opts, partial=None):
        argv = [w, h, '--underground-length', L, '--all'] + opts
        with scratch() as d:
            if partial is not None:
                rows = [[{'tile': {'type': 'empty'}} for _ in range(w)] for _ in range(h)]
                for (x, y), t in partial.items():
                    rows[y][x] = {'tile': to_json_tile(t)}
                open(d + '/p', 'w').write(json.dumps(rows))
                argv += ['--partial', d + '/p']
            r = tool('interchange', argv).check()
        return {tuple(sorted(grid_from_json(json.loads(q))[0].items())) for q in r.lines}
    full = layouts([])
    bad = []
    n = 0
    want = {k for k in full if why_bad(dict(k), w, h, L, True, False) is None}
    got = layouts(['--alternating'])
    if want != got:
        bad.append(('%dx%d underground=%s: --alternating prints %d layouts, %d of all %d alternate' % (w, h, L, len(got), len(want), len(full)), repr(item)))
    for c in cells:
        for t in ALPHABET[1:21] + [('X',)]:
            n += 1
            tt = E if t == ('X',) else t
            want = {k for k in full if dict(k)[c] == tt}
            got = layouts([], {c: t})
            if want != got:
                bad.append(('%dx%d underground=%s: with %s given at %s %d layouts are printed, %d of all %d contain it' % (w, h, L, t, c, len(got), len(want), len(full)), repr(item)))
                if len(bad) > 2:
                    break
    return dict(counts=dict(states=n + 1, transitions=len(full), traces_validated_against_impl=n + 1), part=('selection', dict(runs=n + 2, layouts=len(full))), violations=bad)


# Wasteful pieces the interchange generator never prints, beside the pruning rules (mc/patterns.py).  They have one handedness.
HALF_TURN = {(0, 0): (('kind', 'E'), ('ug', 0)), (1, 0): (('noug', 0),), (1, -1): (('kind', 'E'),), (2, 0): (('out', 1),), (2, -1): (('out', 1),), (2, -2): (('out', 2),), (1, -2): (('out', 2),)}
PASSING = {(0, 0): P.belt(0, 0), (1, 0): P.belt(0, 0), (0, -1): P.belt(2, 2), (1, -1): P.belt(2, 2)}
TURNED = [[P.turn_picture(p, q, False) for q in range(4)] for p in (HALF_TURN, PASSING)]
PLAIN = P.GENERIC
ROT = ('expand_underground', 'prevent_small_loops', 'prevent_empty_along_underground', 'prevent_belt_hooks', 'prevent_mergeable_underground', 'prevent_semicircles', 'prevent_underground_hook')


def found(pics, sig):
    for pic in pics:
        for (x, y) in sig:
            if all((x + dx, y + dy) in sig and P.holds(c, sig[x + dx, y + dy]) for (dx, dy), c in pic.items()):
                yield [(x + dx, y + dy) for dx, dy in pic]


def wasteful(g, w, h, R, refs):
    """contains one of the pictures; two lanes of the same half passing each other count (a closed loop belongs to no half)"""
    sig = next(P.cells_of(g, R))
    if any(r.matches(sig, R) for r in refs):
        return True
    if next(found(TURNED[0], sig), None):
        return True
    lanes = [c for c in found(TURNED[1], sig)]
    if not lanes:
        return False
    group = {}
    for y in range(h):
        for c in path(g, (0, y)):
            group[c] = ('half', y >= h // 2)
    for c in g:
        if g[c][0] in 'BU' and c not in group:
            for q in path(g, c):
                group[q] = ('loop', c)
    loops = sorted({v for v in group.values() if v[0] == 'loop'})
    for choice in itertools.product((False, True), repeat=len(loops)):
        val = dict(zip(loops, choice))
        val.update({('half', b): b for b in (False, True)})
        if not any(len({val[group[c]] for c in lane}) == 1 for lane in lanes):
            return False
    return True


def path(g, c):
    """cells met when following the belts from c"""
    seen = []
    while c in g and c not in seen:
        seen.append(c)
        t = g[c]
        d = t[2] if t[0] == 'B' else t[1]
        n = (c[0] + VEC[d][0], c[1] + VEC[d][1])
        if t[0] == 'U' and t[2]:
            while g[n] != ('U', d, False):
                n = (n[0] + VEC[d][0], n[1] + VEC[d][1])
        c = n
    return seen


def complete(item):
    """--all prints exactly the interchanges without a wasteful piece"""
    w, h, L, choices, fixed = item
    R = Rules(w, h, NW, L, belt_block=CLOSED, ug_block=(True,) * 4)
    allowed = {}
    for x in range(w):
        for y in range(h):
            allowed[x, y] = [t for t in ALPHABET if t[0] != 'S' and (takes(t) == 0 or x > 0) and (emits(t) == 0 or x < w - 1)
                             and all(s <= {0} for s in bal.crossing(t, x, y, w, h))]
    for c, t in fixed.items():
        if t not in allowed[c]:
            return dict(counts={}, part=('complete', dict(configs=0)), violations=[])
        allowed[c] = [t]
    stats = {}
    valid = [g for g in bal.layouts(w, h, L, allowed, stats=stats, max_in=h, max_out=h) if why_bad(g, w, h, L, False, False) is None]
    bad = []
    runs = 0
    for opts in choices:
        rot = '--rot-symmetry' in opts
        refs = [P.make(n, w, h, L, (0, 0, w - 1, h - 1) if n == 'expand_underground' else None) for n in (ROT if rot else PLAIN)]
        want = {tuple(sorted(g.items())) for g in valid if why_bad(g, w, h, L, '--alternating' in opts, rot) is None and not wasteful(g, w, h, R, refs)}
        r = tool('interchange', [w, h, '--underground-length', L, '--all'] + list(opts)).check()
        got = {k for k in (tuple(sorted(grid_from_json(json.loads(q))[0].items())) for q in r.lines) if all(dict(k)[c] == t for c, t in fixed.items())}
        runs += len(got)
        for what, s in (('not printed', want - got), ('printed with a wasteful piece', got - want)):
            if s:
                bad.append(('interchange %d %d underground=%s %s: %d layout(s) %s, e.g.\n%s' % (w, h, L, ' '.join(opts), len(s), what, show(dict(min(s, key=repr)), w, h)), repr((item, min(s, key=repr)))))
    return dict(counts=dict(states=len(valid), transitions=stats.get('transitions', 0), traces_validated_against_impl=runs),
                part=('complete', dict(configs=1, valid=len(valid), printed=runs)), violations=bad)


class Captured(Exception):
    pass


def model(w, h, L, opts=()):
    """the constraints interchange builds for these arguments"""
    from factorio_sat import interchange, solver

    def stop(self, *a, **k):
        raise Captured(self)
    saved, argv = solver.Grid.itersolve, sys.argv
    solver.Grid.itersolve = stop
    sys.argv = ['interchange', str(w), str(h), '--underground-length', str(L)] + list(opts)
    try:
        interchange.main()
    except Captured as e:
        return e.args[0]
    finally:
        solver.Grid.itersolve, sys.argv = saved, argv
    raise RuntimeError('no model')


def kept():
    """interchanges close to a wasteful picture or with belts going back (found once with tools/find_interchanges.py)"""
    for d in json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'interchanges.json'))):
        yield {(x, y): tuple(t) for y, row in enumerate(d['cells']) for x, t in enumerate(row)}, d['w'], d['h'], d['L']


def upside_down(g, w, h):
    f = {0: 0, 1: 3, 2: 2, 3: 1}
    return {(x, h - 1 - y): ('B', f[t[1]], f[t[2]]) if t[0] == 'B' else ('U', f[t[1]], t[2]) if t[0] == 'U' else t for (x, y), t in g.items()}


def around(item):
    """every way to fill each window of a kept interchange (or an image of it): the constraints of the generator admit exactly the
    interchanges without a wasteful piece"""
    which, image, ww, wh = item
    g, w, h, L = list(kept())[which]
    if image & 1:
        g = reversed_turn(g, w, h)
    if image & 2:
        g = upside_down(g, w, h)
    R = Rules(w, h, NW, L, belt_block=CLOSED, ug_block=(True,) * 4)
    refs = [P.make(n, w, h, L, (0, 0, w - 1, h - 1) if n == 'expand_underground' else None) for n in PLAIN]
    free = {(x, y): [t for t in ALPHABET if t[0] != 'S' and (takes(t) == 0 or x > 0) and (emits(t) == 0 or x < w - 1)
                     and all(s <= {0} for s in bal.crossing(t, x, y, w, h))] for x in range(w) for y in range(h)}
    acc = Acceptor(model(w, h, L), free)
    stats = {}
    seen = set()
    bad = []
    good = accepted = 0
    for x0 in range(w - ww + 1):
        for y0 in range(h - wh + 1):
            allowed = {c: free[c] if x0 <= c[0] < x0 + ww and y0 <= c[1] < y0 + wh else [t] for c, t in g.items()}
            for G in bal.layouts(w, h, L, allowed, skip_empty_ug=False, stats=stats):
                k = tuple(sorted(G.items()))
                if k in seen or len(bad) > 2:
                    continue
                seen.add(k)
                c = acc.accepts_layout(G)
                why = why_bad(G, w, h, L, False, False)
                if why is None and wasteful(G, w, h, R, refs):
                    why = 'has a wasteful piece'
                good += why is None
                accepted += c
                if c != (why is None):
                    bad.append(('interchange %d %d underground=%s: a layout that %s is %s\n%s' % (w, h, L, why or 'is an interchange without a wasteful piece', 'accepted' if c else 'refused', show(G, w, h)), repr(G)))
    acc.close()
    return dict(counts=dict(states=len(seen), transitions=stats.get('transitions', 0), traces_validated_against_impl=len(seen)),
                part=('around kept interchanges', dict(configs=1, layouts=len(seen), interchanges=good, accepted=accepted)), violations=bad)


def run(tier):
    chk = Check('C06', 'model_checking', tier, 'every layout printed with --all for the listed sizes (up to the stated number of layouts per run for the largest)')
    th = tier == 'thorough'
    A, R = '--alternating', '--rot-symmetry'
    cap = 20000 if th else 1200
    items = []
    for w, h in [(1, 2), (2, 2), (3, 2), (4, 2), (4, 4), (5, 4), (6, 4), (7, 4), (8, 4), (6, 6), (7, 6), (8, 6), (6, 8), (8, 8)] + ([(9, 4), (10, 4), (9, 6), (10, 8), (8, 10)] if th else []):
        for L in (1, 2, 4, 8):
            for o in ((), (A,), (R,), (A, R)):
                if w < 2 and h <= 2 and R in o and th is None:
                    continue
                items.append((w, h, L, o + ('--all',), cap, None))
    items.append((6, 4, 4, (), None, None))
    items.append((8, 10, 8, (A,), None, None))
    pmap(select, [(w, h, L, []) for w, h in ((3, 2), (6, 4), (7, 4)) for L in (2, 4, 8)] + [(8, 4, L, []) for L in ((2, 4, 8) if th else (4,))] + [(6, 4, 4, [(x, y) for y in range(4)]) for x in range(6)] + [(6, 6, 4, [])] * th, chk)
    full = [(), (A,), (R,), (A, R)]
    pmap(complete, [(7, 4, L, full, {(1, 0): a, (2, 0): b}) for L in ((1, 2, 4, 8) if th else (4,)) for a in ALPHABET for b in ALPHABET if a[0] != 'S' and b[0] != 'S' and pair_ok(a, 0, b)]
         + [(w, 4, L, full, {}) for w in (1, 2, 3, 4, 5, 6) for L in (1, 2, 4)] + [(w, 2, L, full, {}) for w in range(1, 9 + th) for L in (1, 2, 3, 4, 8)], chk)
    wins = []
    for k, (_, w, h, L) in enumerate(kept()):
        for image in range(4) if th else (0, 2):
            for a, b in ((6, 3), (4, 4), (4, 5)) if th else ((4, 3), (3, 4)):
                if b <= h:
                    wins.append((k, image, a, b))
    pmap(around, sorted(wins, key=lambda i: -i[0]), chk)
    pmap(check, sorted(items, key=lambda i: -i[0] * i[1]), chk)
    return chk.finish(['mc/ref.py and mc/bal.py state the belt-laying rules', 'runs that print more than %d layouts are stopped there' % cap])
