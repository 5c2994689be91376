"""Translation between the reference model's tuples and the product's tiles, and the acceptance oracle."""
from . import common  # noqa: F401  (puts /repo on the path)
from .ref import ALPHABET

from factorio_sat import tile as T
from factorio_sat.direction import Direction as D
from factorio_sat.template import EdgeMode
from pysat.solvers import Solver

import numpy as np


def to_impl(t):
    k = t[0]
    if k == 'E':
        return T.EmptyTile()
    if k == 'X':
        return T.FillerTile()
    if k == 'B':
        return T.Belt(D(t[1]), D(t[2]))
    if k == 'U':
        return T.UndergroundBelt(D(t[1]), t[2])
    if k == 'S':
        return T.Splitter(D(t[1]), t[2])
    raise ValueError(t)


def from_impl(t):
    if isinstance(t, T.EmptyTile):
        return ('E',)
    if isinstance(t, T.FillerTile):
        return ('X',)
    if isinstance(t, T.Belt):
        return ('B', int(D(t.input_direction)), int(D(t.output_direction)))
    if isinstance(t, T.UndergroundBelt):
        return ('U', int(D(t.direction)), bool(t.is_input))
    if isinstance(t, T.Splitter):
        return ('S', int(D(t.direction)), bool(t.is_head))
    raise ValueError(t)


def from_json_tile(j):
    """Independent reading of the documented JSON form of a tile."""
    k = j['type']
    if k == 'empty':
        return ('E',)
    if k == 'filler':
        return ('X',)
    if k == 'belt':
        return ('B', j['input_direction'], j['output_direction'])
    if k == 'underground_belt':
        return ('U', j['direction'], j['is_input'])
    if k == 'splitter':
        return ('S', j['direction'], j['is_head'])
    raise ValueError(j)


def to_json_tile(t):
    k = t[0]
    if k == 'E':
        return {'type': 'empty'}
    if k == 'X':
        return {'type': 'filler'}
    if k == 'B':
        return {'type': 'belt', 'input_direction': t[1], 'output_direction': t[2]}
    if k == 'U':
        return {'type': 'underground_belt', 'direction': t[1], 'is_input': t[2]}
    return {'type': 'splitter', 'direction': t[1], 'is_head': t[2]}


def grid_from_json(rows):
    """JSON solution (list of rows of cells) -> (layout dict, w, h)"""
    g = {}
    for y, row in enumerate(rows):
        for x, cell in enumerate(row):
            g[x, y] = from_json_tile(cell['tile'])
    return g, len(rows[0]), len(rows)


def grid_to_json(g, w, h):
    return [[{'tile': to_json_tile(g[x, y])} for x in range(w)] for y in range(h)]


def grid_to_array(g, w, h):
    a = np.empty((h, w), dtype=object)
    for (x, y), t in g.items():
        a[y, x] = to_impl(t)
    return a


def key(g, w, h):
    return tuple(g[x, y] for y in range(h) for x in range(w))


def edge_mode(wrap):
    return tuple(EdgeMode.WRAP if q else EdgeMode.NO_WRAP for q in wrap)


class Acceptor:
    """Asks the product's own constraint model about concrete layouts.

    For every (cell, tile) a selector is bound to exactly the clauses the product adds when told to place
    that tile there, so that a layout is accepted iff the product's model with those tiles is satisfiable.
    """

    def __init__(self, grid, alphabet=ALPHABET, solver='m22', cells=None):
        self.grid = grid
        self.s = Solver(name=solver, bootstrap_with=list(grid.clauses))
        self.sel = {}
        self.calls = 0
        for x in range(grid.width):
            for y in range(grid.height):
                if cells is not None and (x, y) not in cells:
                    continue
                for t in (alphabet[x, y] if isinstance(alphabet, dict) else alphabet):
                    n = len(grid.clauses)
                    grid.set_tile(x, y, to_impl(t))
                    new = grid.clauses[n:]
                    del grid.clauses[n:]
                    v = grid.allocate_variable()
                    self.sel[x, y, t] = v
                    for c in new:
                        self.s.add_clause([-v] + list(c))

    def lit(self, x, y, t):
        return self.sel[x, y, t]

    def maybe(self, assumptions):
        """False only if the partial layout is already contradictory by propagation."""
        return self.s.propagate(assumptions=assumptions)[0]

    def accepts(self, assumptions):
        self.calls += 1
        return self.s.solve(assumptions=assumptions)

    def accepts_layout(self, g):
        return self.accepts([self.sel[x, y, t] for (x, y), t in g.items()])

    def close(self):
        self.s.delete()
