"""Layouts of the shipped blueprint books, read independently of the code under test."""
import base64
import json
import zlib

from .common import REPO
from .ref import E, VEC

LEVELS = {'yellow': 4, 'red': 6, 'blue': 8}
BOOKS = ('yellow_area', 'yellow_narrow', 'red_area', 'red_narrow', 'blue_area', 'blue_narrow')


def decode(text):
    return json.loads(zlib.decompress(base64.b64decode(text.strip()[1:])))


def book_layouts(books=BOOKS):
    """[(book, label, (layout, w, h))]"""
    res = []
    for name in books:
        stack = [decode(open('%s/books/%s.txt' % (REPO, name)).read())]
        while stack:
            b = stack.pop()
            if 'blueprint_book' in b:
                stack += b['blueprint_book']['blueprints']
            else:
                res.append((name, b['blueprint'].get('label'), read_entities(b['blueprint']['entities'])))
    return res


def distinct_layouts():
    """[(underground limit, label, g, w, h)] without repetitions, smallest first"""
    seen = {}
    for book, label, (g, w, h) in book_layouts():
        k = tuple(g[x, y] for y in range(h) for x in range(w)), w
        L = LEVELS[book.split('_')[0]]
        if k not in seen or seen[k][0] > L:
            seen[k] = (L, label, g, w, h)
    return sorted(seen.values(), key=lambda v: (v[3] * v[4], v[1] or '', sorted(v[2].items())))


def read_entities(ents):
    fd = {0: 1, 2: 0, 4: 3, 6: 2}
    raw = {}
    for e in ents:
        x, y = e['position']['x'], e['position']['y']
        d = fd[e.get('direction', 0)]
        n = e['name']
        if n.endswith('splitter'):
            hx, hy = VEC[(d + 1) % 4]
            raw[int((x - hx / 2) // 1), int((y - hy / 2) // 1)] = ('S', d, True)
            raw[int((x + hx / 2) // 1), int((y + hy / 2) // 1)] = ('S', d, False)
        elif n.endswith('underground-belt'):
            raw[int(x // 1), int(y // 1)] = ('U', d, e['type'] == 'input')
        else:
            raw[int(x // 1), int(y // 1)] = ('B', d, d)
    mx, my = min(p[0] for p in raw), min(p[1] for p in raw)
    g = {(x - mx, y - my): t for (x, y), t in raw.items()}
    w, h = max(p[0] for p in g) + 1, max(p[1] for p in g) + 1
    for y in range(h):
        for x in range(w):
            g.setdefault((x, y), E)
    curves(g)
    return g, w, h


def curves(g):
    """Set the entry direction of every belt from what feeds it (a single side feed makes a curve)."""
    def out(t):
        return t[1] if t[0] == 'S' else (t[2] if t[0] == 'B' else (t[1] if t[0] == 'U' and not t[2] else None))
    fixed = {}
    for (x, y), t in g.items():
        if t[0] == 'B':
            feeds = [d for d in range(4) if d != (t[2] + 2) % 4 and (x - VEC[d][0], y - VEC[d][1]) in g
                     and out(g[x - VEC[d][0], y - VEC[d][1]]) == d]
            fixed[x, y] = ('B', feeds[0] if len(feeds) == 1 else t[2], t[2])
    g.update(fixed)


# -- the eight symmetries, restated ------------------------------------------------------------------

def turn(g, w, h, mirror, quarter):
    """Mirror left-right first (if asked), then turn counterclockwise by `quarter` quarter turns.
    Returns (layout, w, h)."""
    def dmap(d):
        return (2 - d) % 4

    def mir(t):
        if t[0] == 'B':
            return ('B', dmap(t[1]), dmap(t[2]))
        if t[0] == 'U':
            return ('U', dmap(t[1]), t[2])
        if t[0] == 'S':
            return ('S', dmap(t[1]), not t[2])
        return t

    def rot(t):
        if t[0] == 'B':
            return ('B', (t[1] + 1) % 4, (t[2] + 1) % 4)
        if t[0] in 'US':
            return (t[0], (t[1] + 1) % 4, t[2])
        return t
    if mirror:
        g = {(w - 1 - x, y): mir(t) for (x, y), t in g.items()}
    for _ in range(quarter % 4):
        # counterclockwise: right -> up; (x, y) -> (y, w - 1 - x)
        g = {(y, w - 1 - x): rot(t) for (x, y), t in g.items()}
        w, h = h, w
    return g, w, h
