"""C07: block generator.  All blocks of a size enumerated explicitly and compared as a set with the output of --all."""
import collections
import itertools
import json
import os

from . import bal
from .bridge import grid_from_json, key
from .common import Check, pmap, scratch, tool
from .ref import ALPHABET, BELTS, E, Rules, UGS, VEC, pair_ok, show, takes


def blocks(w, h, wrap, L, empty, stats):
    """all buildable splitter-free blocks (reference)"""
    tiles = ([E] if empty else []) + BELTS + (UGS if L else [])
    closed = not wrap
    R = Rules(w, h, (wrap, wrap), L or 1, (closed,) * 4, (closed,) * 4)
    if closed:
        allowed = {}
        for x in range(w):
            for y in range(h):
                allowed[x, y] = [t for t in tiles if not any(bal.crossing(t, x, y, w, h))]
        gen = bal.layouts(w, h, L or 1, allowed, 0, skip_empty_ug=False, stats=stats)
    else:
        gen = wrapped(w, h, R, tiles, stats)
    for g in gen:
        if R.legal(g):
            yield g, R


def wrapped(w, h, R, tiles, stats):
    cells = [(x, y) for y in range(h) for x in range(w)]
    G = {}
    nbs = {c: [(d, R.nb[c[0], c[1], d]) for d in range(4)] for c in cells}

    def rec(k):
        if k == len(cells):
            yield dict(G)
            return
        c = cells[k]
        for t in tiles:
            G[c] = t
            stats['transitions'] = stats.get('transitions', 0) + 1
            if not all(n not in G or pair_ok(t, d, G[n]) for d, n in nbs[c]):
                continue
            if c[0] == w - 1 and not row_ok(R, G, c[1], w):
                continue
            yield from rec(k + 1)
        del G[c]
    yield from rec(0)


def row_ok(R, G, y, w):
    return all(R.ug_partial_ok(G, x, y) for x in range(w) if G[x, y][0] == 'U' and G[x, y][1] % 2 == 0)


def spans(g, R):
    """[(axis, covered cells)] of all undergrounds"""
    res = []
    for (x, y), t in g.items():
        if t[0] == 'U' and t[2]:
            _, cov = R.ug_line(g, x, y)
            res.append((t[1] % 2, cov))
    return res


def small_loop(g, w, h):
    for x in range(w - 1):
        for y in range(h - 1):
            a = [g[x, y], g[x, y + 1], g[x + 1, y + 1], g[x + 1, y]]
            if a == [('B', 2, 3), ('B', 3, 0), ('B', 0, 1), ('B', 1, 2)] or a == [('B', 1, 0), ('B', 2, 1), ('B', 3, 2), ('B', 0, 3)]:
                return True
    return False


def single_loop(g, w, h, R):
    c = (0, 0)
    n = 0
    while True:
        n += 1
        if n > w * h + 1:
            return False
        t = g[c]
        if t[0] == 'U' and t[2]:
            c = R.ug_line(g, *c)[0]
        else:
            c = R.nb[c[0], c[1], t[2] if t[0] == 'B' else t[1]]
        if c == (0, 0):
            return n == w * h


def wanted(g, w, h, R, no_parallel, single):
    if small_loop(g, w, h):
        return False
    sp = spans(g, R)
    if any(all(g[c] == E for c in cov) for _, cov in sp):
        return False
    if no_parallel:
        for axis in (0, 1):
            cov = set(c for a, cs in sp if a == axis for c in cs)
            side = 1 if axis == 0 else 0
            for c in cov:
                if R.nb[c[0], c[1], side] in cov:
                    return False
    if single and not single_loop(g, w, h, R):
        return False
    return True


def compare(item):
    w, h, wrap, L, empty, no_parallel, single, out_file = item
    st = {}
    ref = set()
    n = 0
    for g, R in blocks(w, h, wrap, L, empty, st):
        n += 1
        if wanted(g, w, h, R, no_parallel, single):
            ref.add(key(g, w, h))
    argv = [w, h, '--underground-length', L, '--all']
    argv += ['--tile'] * wrap + ['--allow-empty'] * empty + ['--no-parallel'] * no_parallel + ['--single-loop'] * single
    with scratch() as d:
        if out_file:
            tool('make_block', argv + ['--output', d + '/o']).check()
            lines = open(d + '/o').read().splitlines()
        else:
            lines = tool('make_block', argv).check().lines
        first = tool('make_block', [a for a in argv if a != '--all']).check().lines
    got = [key(grid_from_json(json.loads(q))[0], w, h) for q in lines]
    bad = []
    desc = 'make_block ' + ' '.join(map(str, argv))

    def pic(k):
        return show({(x, y): k[y * w + x] for x in range(w) for y in range(h)}, w, h)
    for what, s in (('missing', ref - set(got)), ('printed that should not be', set(got) - ref), ('printed more than once', {k for k, c in collections.Counter(got).items() if c > 1})):
        if s:
            bad.append(('%s: %d block(s) %s, e.g.\n%s' % (desc, len(s), what, pic(sorted(s)[0])), repr((item, sorted(s)[:3]))))
    f = [key(grid_from_json(json.loads(q))[0], w, h) for q in first]
    if len(f) != (1 if ref else 0) or not set(f) <= ref:
        bad.append(('%s: without --all %d blocks printed, %d exist' % (desc, len(f), len(ref)), repr(item)))
    return dict(counts=dict(states=n, transitions=st.get('transitions', 0), traces_validated_against_impl=len(got) + len(f)),
                part=(('tile' if wrap else 'closed') + ' empty' * empty + ' no-parallel' * no_parallel + ' single-loop' * single, dict(configs=1, blocks=len(ref))), violations=bad,
                samples=[desc + '\n' + pic(k) for k in sorted(ref)[:1]])


def sound(item):
    """blocks too large to enumerate: everything printed is buildable and as asked for"""
    w, h, wrap, L, empty, no_parallel, single, limit = item
    argv = [w, h, '--underground-length', L, '--all']
    argv += ['--tile'] * wrap + ['--allow-empty'] * empty + ['--no-parallel'] * no_parallel + ['--single-loop'] * single
    desc = 'make_block ' + ' '.join(map(str, argv))
    lines = tool('make_block', argv, limit=limit).check().lines
    closed = not wrap
    R = Rules(w, h, (wrap, wrap), L or 1, (closed,) * 4, (closed,) * 4)
    bad = []
    seen = set()
    for q in lines:
        g, gw, gh = grid_from_json(json.loads(q))
        k = key(g, gw, gh)
        why = None
        if (gw, gh) != (w, h):
            why = 'of the wrong size'
        elif k in seen:
            why = 'printed before'
        elif any(t[0] == 'S' or t == E and not empty or t[0] == 'U' and not L for t in g.values()):
            why = 'with tiles that were not asked for'
        elif not R.legal(g) or closed and any(any(bal.crossing(t, x, y, w, h)) for (x, y), t in g.items()):
            why = 'that cannot be built'
        elif not wanted(g, w, h, R, no_parallel, single):
            why = 'that is not as asked for'
        seen.add(k)
        if why:
            bad.append(('%s: prints a block %s\n%s' % (desc, why, show(g, gw, gh)), repr(item)))
            break
    return dict(counts=dict(states=len(lines), transitions=len(lines), traces_validated_against_impl=len(lines)),
                part=('printed only: ' + ('tile' if wrap else 'closed') + ' empty' * empty + ' no-parallel' * no_parallel + ' single-loop' * single, dict(configs=1, blocks=len(lines))), violations=bad)


def run(tier):
    chk = Check('C07', 'model_checking', tier, 'all blocks of the listed sizes and options enumerated and compared as a set with the output of --all')
    th = tier == 'thorough'
    items = []
    for wrap in (False, True):
        sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 4), (5, 1), (4, 2)] if wrap else [(1, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4), (4, 4), (5, 2), (5, 3)]
        for w, h in sizes:
            for L in (0, 1, 2, 4):
                for empty, par, single in itertools.product((False, True), repeat=3):
                    if empty and single:
                        continue
                    if not wrap and w * h > 12 and empty and not th and (L != 2 or w * h > 15):
                        continue
                    if not th and wrap and empty and w * h > 6 and L != 1:
                        continue
                    items.append((w, h, wrap, L, empty, par, single, (w + h + L) % 3 == 0))
    big = [(3, 3, True, 0, False, False, False), (3, 3, True, 4, False, False, True), (3, 3, True, 1, False, True, False), (4, 4, False, 4, False, False, True), (4, 4, False, 1, False, True, False), (5, 4, False, 4, False, False, True),
           (5, 4, False, 4, False, False, False), (4, 5, False, 2, False, True, False), (6, 3, False, 4, False, False, True), (3, 6, False, 4, False, False, False),
           (6, 4, False, 2, False, False, True), (4, 6, False, 4, False, False, True), (6, 4, False, 4, False, False, False), (4, 6, False, 2, False, True, False),
           (2, 6, True, 4, False, False, True), (3, 4, True, 2, False, False, True), (4, 3, True, 2, False, False, True)]
    if th:
        big += [(5, 5, False, 4, False, False, True), (6, 4, False, 4, False, True, False), (4, 3, True, 4, False, False, True), (3, 4, True, 2, False, True, False), (3, 3, True, 4, True, True, False), (6, 4, False, 3, False, False, True)]
    items += [b + (False,) for b in big]
    cap = 50000 if th else 5000
    big = [(6, 3, True, 2, False, False, True, cap), (3, 6, True, 2, False, False, True, cap), (6, 6, False, 4, False, False, True, cap), (6, 6, False, 2, True, True, False, cap),
           (8, 4, False, 4, False, True, False, cap), (4, 8, False, 6, False, False, True, cap), (4, 4, True, 3, True, True, False, cap), (5, 5, True, 4, False, False, False, cap)]
    pmap(sound, big, chk)
    pmap(compare, sorted(set(items), key=lambda i: -i[0] * i[1] * (1 + i[2])), chk)
    return chk.finish(['mc/ref.py states the belt-laying rules', 'four-cell loops are looked for inside the block, not across the seam of tiled copies'])
