"""Looks for interchanges that come close to a wasteful picture, or carry belts back, and writes mc/data/interchanges.json.
(Run by hand; the check re-judges every one of them.)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import c06                                                # noqa: E402
from mc.bridge import grid_from_json                              # noqa: E402
from mc.ref import Rules, show                                    # noqa: E402
from mc import patterns as P                                      # noqa: E402
from multiprocessing import Pool                                  # noqa: E402
from pysat.solvers import Solver                                  # noqa: E402


def lits(tile, cond):
    for what, a in cond:
        if what == 'kind':
            yield {'E': tile.is_empty, 'B': tile.is_belt}[a]
        elif what == 'ug':
            yield tile.underground[a]
        elif what == 'noug':
            yield -tile.underground[a]
        elif what == 'in':
            yield tile.input_direction[a]
        elif what == 'noin':
            yield -tile.input_direction[a]
        elif what == 'out':
            yield tile.output_direction[a]
        elif what == 'not':
            yield -{'E': tile.is_empty, 'B': tile.is_belt, 'S': tile.is_splitter}[a]


def goals(g, w, h):
    """{name: [conjunctions]}: each near miss"""
    res = {}
    for name, fam in (('half_turn', c06.TURNED[0]), ('passing', c06.TURNED[1])):
        for q, pic in enumerate(fam):
            cells = sorted(pic)
            flat = [(c, k) for c in cells for k in range(len(pic[c]))]
            for miss in flat + [None] * (name == 'passing'):
                alts = []
                for x in range(w):
                    for y in range(h):
                        if not all(0 <= x + dx < w and 0 <= y + dy < h for dx, dy in cells):
                            continue
                        conj = []
                        for (dx, dy) in cells:
                            for k, l in enumerate(lits(g.get_tile_instance(x + dx, y + dy), pic[dx, dy])):
                                conj.append(-l if ((dx, dy), k) == miss else l)
                        alts.append(conj)
                if alts:
                    res[name, q, miss] = alts
    for d in (1, 2, 3):
        for kind in ('belt', 'ug'):
            alts = []
            for x in range(w):
                for y in range(h):
                    t = g.get_tile_instance(x, y)
                    for col in (0, 1):
                        if kind == 'belt':
                            conj = [t.output_direction[d], t.colour[0] if col else -t.colour[0]]
                        else:
                            u = (t.colour_ux if d % 2 == 0 else t.colour_uy)[0]
                            conj = [t.underground[d], u if col else -u]
                        if d == 2 or (d == 1) == (col == 0):      # 0 comes from above and has no need to go up
                            alts.append(conj)
            res['back', d, kind] = alts
    return res


def size(item):
    w, h, L = item
    g = c06.model(w, h, L)
    base = list(g.clauses)
    out = []
    for k, alts in goals(g, w, h).items():
        cl = []
        sel = []
        for conj in alts:
            v = g.allocate_variable()
            sel.append(v)
            cl += [[-v, l] for l in conj]
        with Solver('cadical153', bootstrap_with=base + cl + [sel]) as s:
            if s.solve():
                sol = grid_from_json(g.parse_solution(s.get_model()).tolist())[0]
                out.append((k, sol))
    return item, out


if __name__ == '__main__':
    have = {}
    sizes = [(6, 4, 4), (7, 4, 4), (7, 4, 2), (8, 4, 4), (8, 4, 6), (9, 4, 4), (8, 6, 4), (9, 6, 4), (9, 6, 2), (9, 6, 8)]
    with Pool(7) as p:
        for (w, h, L), out in p.imap(size, sizes):
            print(w, h, L, len(out), flush=True)
            for k, sol in out:
                if k in have:
                    continue
                why = c06.why_bad(sol, w, h, L, False, False)
                R = Rules(w, h, c06.NW, L, belt_block=c06.CLOSED, ug_block=(True,) * 4)
                refs = [P.make(n, w, h, L, (0, 0, w - 1, h - 1) if n == 'expand_underground' else None) for n in c06.PLAIN]
                bad = why or (c06.wasteful(sol, w, h, R, refs) and 'is wasteful')
                print(k, 'from', (w, h, L), bad or '')
                print(show(sol, w, h), flush=True)
                have[k] = (w, h, L, sol)
    distinct = {}
    for k, (w, h, L, sol) in have.items():
        distinct.setdefault((w, h, L, tuple(sorted(sol.items()))), []).append(k)
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc/data/interchanges.json'), 'w') as f:
        f.write('[' + ',\n '.join(json.dumps(dict(w=w, h=h, L=L, cells=[[dict(sol)[x, y] for x in range(w)] for y in range(h)], why=[str(k) for k in ks])) for (w, h, L, sol), ks in distinct.items()) + ']\n')
    print(len(have), 'goals', len(distinct), 'layouts')
