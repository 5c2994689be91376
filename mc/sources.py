"""Where the format checks take their layouts from: all buildable layouts of small open grids, and the shipped books."""
from .books import distinct_layouts, turn
from .ref import ALPHABET, E, Rules


def legal_layouts(w, h, L=4, closed=False, prefix=(), ug_closed=False, alphabet=ALPHABET):
    """Every buildable layout of a small grid (open or closed edges), as dicts."""
    blk = (closed,) * 4
    R = Rules(w, h, (False, False), L, belt_block=blk, ug_block=(closed or ug_closed,) * 4)
    cells = [(x, y) for y in range(h) for x in range(w)]
    g = {}

    def rec(k):
        if k == len(cells):
            if R.legal(g):
                yield dict(g)
            return
        x, y = cells[k]
        for t in (alphabet if k >= len(prefix) else (prefix[k],)):
            g[x, y] = t
            ok = R.cell_ok(g, x, y)
            if ok and x:
                ok = R.pair_ok(g[x - 1, y], 0, t)
            if ok and y:
                ok = R.pair_ok(g[x, y - 1], 3, t)
            if ok:
                yield from rec(k + 1)
        g.pop((x, y), None)
    yield from rec(0)


def prefixes(w, h, n=1):
    if n == 0:
        return [()]
    return [p + (t,) for p in prefixes(w, h, n - 1) for t in ALPHABET]


def books(orientations=8, largest=None):
    """[(label, layout, w, h)] of the shipped books, in the given number of orientations"""
    res = []
    for k, (L, label, g, w, h) in enumerate(distinct_layouts()):
        if largest is not None and w * h > largest:
            continue
        for o in range(orientations):
            res.append((label, L) + turn(g, w, h, o >= 4, o % 4))
    return res
