"""Independent reference model of belt layouts.

Nothing in this file imports the code under test.  A tile is a plain tuple:

    ('E',)            empty                 ('X',)           filler
    ('B', i, o)       belt travelling in direction i on entry, o on exit
    ('U', d, is_in)   underground entrance (True) / exit (False), travelling d
    ('S', d, head)    one half of a splitter travelling d

Directions: 0 right, 1 up, 2 left, 3 down (y grows downwards).  The head half of a splitter is the
one whose partner lies one step in direction d+1.
"""

import functools

VEC = ((1, 0), (0, -1), (-1, 0), (0, 1))
E = ('E',)
X = ('X',)

BELTS = [('B', i, o) for i in range(4) for o in range(4) if (i + 2) % 4 != o]
UGS = [('U', d, k) for d in range(4) for k in (True, False)]
SPLITS = [('S', d, h) for d in range(4) for h in (True, False)]
ALPHABET = [E] + BELTS + UGS + SPLITS            # 29 tiles


def emits(t):
    """Direction in which a non-splitter tile hands items over, or None."""
    if t[0] == 'B':
        return t[2]
    if t[0] == 'U' and not t[2]:
        return t[1]
    return None


def takes(t):
    """Travel direction in which a non-splitter tile must be fed, or None."""
    if t[0] == 'B':
        return t[1]
    if t[0] == 'U' and t[2]:
        return t[1]
    return None


def partner_dir(t):
    """Direction of the other half of a splitter."""
    return (t[1] + 1) % 4 if t[2] else (t[1] + 3) % 4


@functools.lru_cache(maxsize=None)
def pair_ok(a, d, b):
    """Local compatibility of the border between a at p and b at p+VEC[d], both known."""
    sa, sb = a[0] == 'S', b[0] == 'S'
    ea = (not sa) and emits(a) == d
    tb = (not sb) and takes(b) == d
    if ea and not (tb or (sb and b[1] == d)):
        return False
    if tb and not (ea or (sa and a[1] == d)):
        return False
    # the same border seen from the other side
    r = (d + 2) % 4
    eb = (not sb) and emits(b) == r
    ta = (not sa) and takes(a) == r
    if eb and not (ta or (sa and a[1] == r)):
        return False
    if ta and not (eb or (sb and b[1] == r)):
        return False
    # a splitter's unused output must not spill onto a belt
    if sa and a[1] == d and not sb and not spill_ok(b, d):
        return False
    if sb and b[1] == r and not sa and not spill_ok(a, r):
        return False
    # the two halves
    if sa and partner_dir(a) == d and b != ('S', a[1], not a[2]):
        return False
    if sb and partner_dir(b) == r and a != ('S', b[1], not b[2]):
        return False
    return True


def spill_ok(b, d):
    """May tile b (not a splitter) stand in front of a splitter travelling d?"""
    if takes(b) == d:
        return True
    return b[0] != 'B'


class Rules:
    """What a layout is checked against.

    wrap          (wrap_x, wrap_y)
    max_ug        maximal number of covered cells between entrance and exit (None: unlimited)
    belt_block    per edge (min_x, min_y, max_x, max_y): no belt, splitter or feed crosses it
    ug_block      per edge: no underground segment crosses it
    """

    def __init__(self, w, h, wrap=(False, False), max_ug=4, belt_block=(False,) * 4, ug_block=(False,) * 4):
        self.w, self.h, self.wrap, self.max_ug = w, h, wrap, max_ug
        self.belt_block, self.ug_block = belt_block, ug_block
        self.nb = {}
        for y in range(h):
            for x in range(w):
                for d in range(4):
                    self.nb[x, y, d] = self._step(x, y, d)

    def _step(self, x, y, d):
        x += VEC[d][0]
        y += VEC[d][1]
        if self.wrap[0]:
            x %= self.w
        if self.wrap[1]:
            y %= self.h
        if 0 <= x < self.w and 0 <= y < self.h:
            return x, y
        return None

    def edge(self, d):
        """index into the *_block tuples of the edge reached by leaving in direction d"""
        return (2, 1, 0, 3)[d]

    def pair_ok(self, a, d, b):
        return pair_ok(a, d, b)

    def cell_ok(self, g, x, y):
        """Rules about the border of the grid for one known cell."""
        t = g[x, y]
        for d in range(4):
            if self.nb[x, y, d] is None:
                e = self.edge(d)
                r = (d + 2) % 4
                if t[0] == 'S':
                    if partner_dir(t) == d:
                        return False
                    # neither side of a splitter may look at a closed edge
                    if self.belt_block[e] and t[1] in (d, r):
                        return False
                else:
                    if self.belt_block[e]:
                        # nothing is handed over the edge, nothing is fed from over it
                        if emits(t) == d or takes(t) == r:
                            return False
                        # and no underground piece dives under / surfaces from under it
                        if t[0] == 'U' and ((t[2] and t[1] == d) or (not t[2] and t[1] == r)):
                            return False
                    if self.ug_block[e]:
                        if t[0] == 'U' and ((t[2] and t[1] == d) or (not t[2] and t[1] == r)):
                            return False
        return True

    def half_connected(self, g, x, y):
        """A splitter half must be connected on its input or its output side."""
        t = g[x, y]
        d = t[1]
        n = self.nb[x, y, d]
        if n is None:
            if not self.belt_block[self.edge(d)]:
                return True
        else:
            b = g[n]
            if b[0] == 'S':
                if b[1] == d:
                    return True
            elif takes(b) == d:
                return True
        r = (d + 2) % 4
        n = self.nb[x, y, r]
        if n is None:
            if not self.belt_block[self.edge(r)]:
                return True
        else:
            b = g[n]
            if b[0] == 'S':
                if b[1] == d:
                    return True
            elif emits(b) == d:
                return True
        return False

    def ug_line(self, g, x, y):
        """Follow an underground entrance; returns (exit position or 'edge', covered cells) or None."""
        _, d, _ = g[x, y]
        covered = []
        px, py = x, y
        while True:
            n = self.nb[px, py, d]
            if n is None:
                return 'edge', covered
            t = g[n]
            if t[0] == 'U' and t[1] % 2 == d % 2:
                if t == ('U', d, False):
                    return n, covered
                return None
            covered.append(n)
            if len(covered) > self.w * self.h:
                return None
            px, py = n

    def ug_ok(self, g):
        for (x, y), t in g.items():
            if t[0] != 'U':
                continue
            if t[2]:
                res = self.ug_line(g, x, y)
                if res is None:
                    return False
                end, cov = res
                if end == 'edge':
                    if self.ug_block[self.edge(t[1])]:
                        return False
                elif not cov:
                    return False
                if self.max_ug is not None and len(cov) > self.max_ug:
                    return False
            else:
                # walk backwards to the entrance
                d, r = t[1], (t[1] + 2) % 4
                px, py = x, y
                cov = 0
                while True:
                    n = self.nb[px, py, r]
                    if n is None:
                        if self.ug_block[self.edge(r)]:
                            return False
                        break
                    b = g[n]
                    if b[0] == 'U' and b[1] % 2 == d % 2:
                        if b != ('U', d, True) or cov == 0:
                            return False
                        break
                    cov += 1
                    if cov > self.w * self.h:
                        return False
                    px, py = n
                if self.max_ug is not None and cov > self.max_ug:
                    return False
        return True

    def ug_partial_ok(self, g, x, y):
        """May the underground piece at x,y of a partial layout still be completed along its line?"""
        t = g[x, y]
        d = t[1] if t[2] else (t[1] + 2) % 4
        cov = 0
        px, py = x, y
        while True:
            n = self.nb[px, py, d]
            if n is None:
                return not self.ug_block[self.edge(d)] and (self.max_ug is None or cov <= self.max_ug)
            b = g.get(n)
            if b is None:
                return self.max_ug is None or cov <= self.max_ug
            if b[0] == 'U' and b[1] % 2 == d % 2:
                return b == ('U', t[1], not t[2]) and cov > 0 and (self.max_ug is None or cov <= self.max_ug)
            cov += 1
            if cov > self.w * self.h:
                return False
            px, py = n

    def legal(self, g):
        for (x, y), t in g.items():
            if not self.cell_ok(g, x, y):
                return False
            for d in (0, 3):
                n = self.nb[x, y, d]
                if n is not None and not self.pair_ok(t, d, g[n]):
                    return False
            if t[0] == 'S' and not self.half_connected(g, x, y):
                return False
        return self.ug_ok(g)


def show(g, w, h):
    arrows = 'RULD'
    def s(t):
        if t[0] == 'B':
            return arrows[t[1]].lower() + arrows[t[2]].lower() + ' '
        if t[0] == 'U':
            return 'u' + arrows[t[1]] + ('i' if t[2] else 'o')
        if t[0] == 'S':
            return 's' + arrows[t[1]] + ('h' if t[2] else 't')
        return ' . ' if t == E else 'XXX'
    return '\n'.join(' '.join(s(g[x, y]) for x in range(w)) for y in range(h))
