"""Reference semantics of balancers: tracing wires, realising a network, exact flow, enumerating layouts.

Nothing here imports the code under test.
"""
import collections
import itertools
from fractions import Fraction

from .ref import ALPHABET, E, Rules, VEC, emits, pair_ok, partner_dir, takes

# ---------------------------------------------------------------------------------------------- wires


class Trace:
    """Wiring of a layout.  splitters: list of head cells; wires: list of (src, dst)
    src: ('in', cell, d) | ('s', i, half)     dst: ('out', cell, d) | ('s', i, half)
    edge_in / edge_out: splitter halves whose input / output looks out of the grid."""

    def __init__(self, g, w, h, wrap=(False, False)):
        self.g, self.w, self.h = g, w, h
        R = Rules(w, h, wrap, None)
        self.R = R
        self.cells = []
        self.id = {}
        for (x, y), t in sorted(g.items()):
            if t[0] == 'S' and t[2]:
                n = R.nb[x, y, partner_dir(t)]
                i = len(self.cells)
                self.cells.append(((x, y), n))
                self.id[x, y] = (i, 0)
                self.id[n] = (i, 1)
        self.wires, self.edge_in, self.edge_out = [], [], []
        self.used = set()
        self.lengths = {}
        for (x, y), t in sorted(g.items()):
            if t[0] != 'S':
                for d in range(4):
                    if takes(t) == d and R.nb[x, y, (d + 2) % 4] is None:
                        self._add(('in', (x, y), d), self._into((x, y), d))
        for i, pair in enumerate(self.cells):
            d = g[pair[0]][1]
            for k, c in enumerate(pair):
                if R.nb[c[0], c[1], (d + 2) % 4] is None:
                    self.edge_in.append((i, k))
                if R.nb[c[0], c[1], d] is None:
                    self.edge_out.append((i, k))
                    continue
                self._add(('s', i, k), self._leave(c, d))

    def _add(self, src, dst):
        if dst is not None:
            self.wires.append((src, dst))

    def _leave(self, c, d):
        n = self.R.nb[c[0], c[1], d]
        if n is None:
            return ('out', c, d)
        t = self.g[n]
        if t[0] == 'S':
            return ('s',) + self.id[n] if t[1] == d else None
        if takes(t) == d:
            return self._into(n, d)
        return None

    def _into(self, c, d):
        while True:
            self.used.add(c)
            t = self.g[c]
            if t[0] == 'U':
                res = self.R.ug_line(self.g, *c)
                if res is None or res[0] == 'edge':
                    return ('bad', c)
                c = res[0]
                self.used.add(c)
                d = t[1]
            else:
                d = t[2]
            n = self.R.nb[c[0], c[1], d]
            if n is None:
                return ('out', c, d)
            t = self.g[n]
            if t[0] == 'S':
                return ('s',) + self.id[n] if t[1] == d else ('bad', c)
            if takes(t) != d:
                return ('bad', c)
            c = n


def net_ends(network):
    """(input colour, count), (output colour, count) of a network given as a list of nodes"""
    occ = collections.Counter()
    for ins, outs in network:
        for c in ins:
            occ[c] += 1
        for c in outs:
            occ[c] -= 1
    del occ[None]
    i = [(c, n) for c, n in occ.items() if n > 0]
    o = [(c, -n) for c, n in occ.items() if n < 0]
    return i, o


def realises(tr, network, must_in=(), forbid_in=(), budget=200000):
    """Is the traced layout wired as the network?  Splitter inputs that look out of the grid may or may not be fed;
    an output may not look out of the grid.  Raises TimeoutError when undecided."""
    i, o = net_ends(network)
    if len(i) != 1 or len(o) != 1 or tr.edge_out or len(tr.cells) != len(network):
        return False
    (ic, n_in), (oc, n_out) = i[0], o[0]
    if any(d[0] == 'bad' for _, d in tr.wires):
        return False
    if sum(1 for _, d in tr.wires if d[0] == 'out') != n_out:
        return False
    fixed_in = sum(1 for s, _ in tr.wires if s[0] == 'in')
    for sub in itertools.product((False, True), repeat=len(tr.edge_in)):
        extra = [e for e, q in zip(tr.edge_in, sub) if q]
        if fixed_in + len(extra) != n_in:
            continue
        conn = {tr.cells[i][k] for i, k in extra}
        if any(tr.cells[i][k] in must_in for (i, k), q in zip(tr.edge_in, sub) if not q) or conn & set(forbid_in):
            continue
        wires = tr.wires + [(('in', tr.cells[i][k], None), ('s', i, k)) for i, k in extra]
        if _match(len(tr.cells), wires, network, ic, oc, budget):
            return True
    return False


def _match(n, wires, network, ic, oc, budget):
    port_in, port_out = {}, {}
    colour = [None] * len(wires)
    for k, (s, d) in enumerate(wires):
        if s[0] == 'in':
            colour[k] = ic
        else:
            port_out[s[1:]] = k
        if d[0] == 'out':
            if colour[k] is not None and ic != oc:
                return False
            colour[k] = oc
        else:
            port_in[d[1:]] = k
    kinds = collections.Counter((tuple(sorted(a, key=str)), tuple(sorted(b, key=str))) for a, b in network)
    left = set(range(n))
    steps = [budget]

    def rec():
        if not left:
            return True
        steps[0] -= 1
        if steps[0] < 0:
            raise TimeoutError
        best = max(left, key=lambda i: (sum(1 for P in (port_in, port_out) for q in (0, 1)
                                            if P.get((i, q)) is not None and colour[P[i, q]] is not None), -i))
        ports = [port_in.get((best, 0)), port_in.get((best, 1)), port_out.get((best, 0)), port_out.get((best, 1))]
        left.discard(best)
        seen = set()
        for (a, b) in list(kinds):
            if kinds[a, b] == 0:
                continue
            for pa in {a, a[::-1]}:
                for pb in {b, b[::-1]}:
                    want = pa + pb
                    if want in seen:
                        continue
                    seen.add(want)
                    ok = True
                    undo = []
                    for p, c in zip(ports, want):
                        if (p is None) != (c is None):
                            ok = False
                            break
                        if p is None:
                            continue
                        if colour[p] is None:
                            colour[p] = c
                            undo.append(p)
                        elif colour[p] != c:
                            ok = False
                            break
                    if ok:
                        kinds[a, b] -= 1
                        if rec():
                            return True
                        kinds[a, b] += 1
                    for p in undo:
                        colour[p] = None
        left.add(best)
        return False
    return rec()


def network_of(tr, edges_connected=True):
    """A network the traced layout realises (each wire its own colour, all inputs one colour, all outputs one colour)."""
    wires = list(tr.wires)
    if edges_connected:
        wires += [(('in', tr.cells[i][k], None), ('s', i, k)) for i, k in tr.edge_in]
    ports = {}
    col = 0
    for s, d in wires:
        if s[0] == 'in':
            c = 'I'
        elif d[0] == 'out':
            c = 'O'
        else:
            col += 1
            c = col
        if s[0] == 's':
            ports[1, s[1], s[2]] = c
        if d[0] == 's':
            ports[0, d[1], d[2]] = c
    m = {'I': 0, 'O': col + 1, None: None}
    res = []
    for i in range(len(tr.cells)):
        res.append(tuple(tuple(m.get(ports.get((s, i, k)), ports.get((s, i, k))) for k in (0, 1)) for s in (0, 1)))
    return res


# ---------------------------------------------------------------------------------------------- exact flow

def flow(n, wires, half=Fraction(1, 2)):
    """Steady state without back pressure: matrix[src][dst] of the share of every external input that reaches every external output.
    wires as in Trace; a splitter splits evenly over its connected outputs."""
    sources = [k for k, (s, d) in enumerate(wires) if s[0] == 'in']
    sinks = [k for k, (s, d) in enumerate(wires) if d[0] == 'out']
    outs = collections.defaultdict(list)
    for k, (s, d) in enumerate(wires):
        if s[0] == 's':
            outs[s[1]].append(k)
    # throughput x_i of every splitter: x_i = sum over wires into i of (source or x_j / #outs_j)
    A = [[Fraction(0)] * n for _ in range(n)]
    B = [[Fraction(0)] * len(sources) for _ in range(n)]
    for i in range(n):
        A[i][i] = Fraction(1)
    for k, (s, d) in enumerate(wires):
        if d[0] != 's':
            continue
        i = d[1]
        if s[0] == 'in':
            B[i][sources.index(k)] += 1
        else:
            A[i][s[1]] -= Fraction(1, len(outs[s[1]]))
    X = solve(A, B)
    if X is None:
        return None
    res = []
    for a, k in enumerate(sources):
        row = []
        for q in sinks:
            s, d = wires[q]
            if s[0] == 'in':
                row.append(Fraction(1 if q == k else 0))
            else:
                row.append(X[s[1]][a] / len(outs[s[1]]))
        res.append(row)
    return res, X, outs


def solve(A, B):
    n = len(A)
    A = [list(a) for a in A]
    B = [list(b) for b in B]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        B[c], B[p] = B[p], B[c]
        iv = 1 / A[c][c]
        A[c] = [v * iv for v in A[c]]
        B[c] = [v * iv for v in B[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [u - f * v for u, v in zip(A[r], A[c])]
                B[r] = [u - f * v for u, v in zip(B[r], B[c])]
    return B


# ---------------------------------------------------------------------------------------------- enumeration

OK_RIGHT = {a: frozenset(b for b in ALPHABET if pair_ok(a, 0, b)) for a in ALPHABET}
OK_DOWN = {a: frozenset(b for b in ALPHABET if pair_ok(a, 3, b)) for a in ALPHABET}


def layouts(w, h, L, allowed, splitters=None, max_in=None, max_out=None, skip_empty_ug=True, stats=None):
    """Every layout in which neighbours fit, undergrounds match inside the grid (1..L covered cells, not all of them empty)
    and every cell is in its allowed set; exactly `splitters` splitters."""
    INF = 10 ** 9
    L = INF if L is None else L
    cells = [(x, y) for y in range(h) for x in range(w)]
    G = {}
    hcar = [None]                       # open horizontal underground of the current row
    vcar = [None] * w
    max_in = INF if max_in is None else max_in
    max_out = INF if max_out is None else max_out
    edge_dirs = {}
    for x, y in cells:
        edge_dirs[x, y] = [d for d in range(4) if not (0 <= x + VEC[d][0] < w and 0 <= y + VEC[d][1] < h)]
    info = {}
    for (x, y) in cells:
        lst = []
        for t in allowed[x, y]:
            bad = False
            ci = co = 0
            for d in edge_dirs[x, y]:
                if t[0] == 'S' and (partner_dir(t) == d or t[1] == d):
                    bad = True
                if t[0] != 'S':
                    co += emits(t) == d
                    ci += takes(t) == (d + 2) % 4
                if t[0] == 'U' and ((t[2] and t[1] == d) or (not t[2] and t[1] == (d + 2) % 4)):
                    bad = True
            if not bad:
                lst.append((t, ci, co))
        info[x, y] = lst

    def step(car, t, fwd):
        """advance an open underground over tile t; fwd is the travel direction that matches the scan direction"""
        if t[0] == 'U' and t[1] % 2 == fwd % 2:
            opens = t[2] if t[1] == fwd else not t[2]
            if opens:
                return ('bad' if car is not None else (t[1], 0, False))
            if car is None or car[0] != t[1] or car[1] == 0 or (skip_empty_ug and not car[2]):
                return 'bad'
            return None
        if car is None:
            return None
        if car[1] >= L:
            return 'bad'
        return (car[0], car[1] + 1, car[2] or t != E)

    def rec(k, ns, ni, no):
        if k == len(cells):
            if splitters is None or ns == splitters:
                yield dict(G)
            return
        x, y = cells[k]
        left = G[x - 1, y] if x else None
        up = G[x, y - 1] if y else None
        okl = OK_RIGHT[left] if x else None
        oku = OK_DOWN[up] if y else None
        h0 = hcar[0] if x else None
        v0 = vcar[x] if y else None
        for t, ci, co in info[x, y]:
            if okl is not None and t not in okl:
                continue
            if oku is not None and t not in oku:
                continue
            s = ns + (t[0] == 'S' and t[2])
            if splitters is not None and s > splitters:
                continue
            if ni + ci > max_in or no + co > max_out:
                continue
            h1 = step(h0, t, 0)
            if h1 == 'bad' or (x == w - 1 and h1 is not None):
                continue
            v1 = step(v0, t, 3)
            if v1 == 'bad' or (y == h - 1 and v1 is not None):
                continue
            if stats is not None:
                stats['transitions'] = stats.get('transitions', 0) + 1
            G[x, y] = t
            hcar[0] = h1
            vcar[x] = v1
            yield from rec(k + 1, s, ni + ci, no + co)
            vcar[x] = v0
        hcar[0] = h0
        G.pop((x, y), None)
    yield from rec(0, 0, 0, 0)


def crossing(t, x, y, w, h):
    """(set of directions in which t takes from outside, set of directions in which it emits to outside)"""
    i, o = set(), set()
    for d in range(4):
        if not (0 <= x + VEC[d][0] < w and 0 <= y + VEC[d][1] < h):
            if t[0] != 'S':
                if emits(t) == d:
                    o.add(d)
                if takes(t) == (d + 2) % 4:
                    i.add((d + 2) % 4)
    return i, o


def end_configs(w, h, n_in, n_out, mode, use_ends=False):
    """Every placement of the inputs and outputs the options allow: yields (allowed, must_in, forbid_in).
    mode: straight | aligned | 90 | 180 | custom"""
    cells = [(x, y) for y in range(h) for x in range(w)]
    full = {c: list(ALPHABET) for c in cells}
    if mode == 'custom':
        yield full, (), ()
        return
    left = [(0, y) for y in range(h)]
    if mode in ('straight', 'aligned'):
        out_cells, od = [(w - 1, y) for y in range(h)], 0
    elif mode == '90':
        out_cells, od = [(x, h - 1) for x in range(w)], 3
    else:
        out_cells, od = left, 2
    rest_empty = mode != '180' and not use_ends
    for so in range(len(left) - n_in + 1):
        for eo in range(len(out_cells) - n_out + 1):
            if mode == 'aligned':
                a, b = set(range(so, so + n_in)), set(range(eo, eo + n_out))
                if not (a <= b or b <= a):
                    continue
            allowed = {}
            ins = set(left[so:so + n_in])
            outs = set(out_cells[eo:eo + n_out])
            must = set()
            for c in cells:
                x, y = c
                lst = []
                for t in ALPHABET:
                    ci, co = crossing(t, x, y, w, h)
                    # nothing else crosses the border
                    if ci != ({0} if c in ins and t[0] != 'S' else set()):
                        continue
                    if co != ({od} if c in outs else set()):
                        continue
                    if c in outs and t[0] != 'B':
                        continue
                    if c in ins:
                        if n_in == len(left):
                            # inputs fill the side: anything that takes the input
                            if t[0] == 'S' and t[1] != 0:
                                continue
                        elif t[0] != 'B':
                            continue
                    if rest_empty and ((c in left and c not in ins) or (c in out_cells and c not in outs)) and t != E:
                        continue
                    lst.append(t)
                allowed[c] = lst
                if c in ins:
                    must.add(c)
            yield allowed, must, {c for c in left if c not in ins}


def all_layouts(w, h, L, network, mode, use_ends=False, stats=None):
    """Reference answer to "all balancers": every layout (as a key tuple) realising the network."""
    i, o = net_ends(network)
    n_in, n_out = i[0][1], o[0][1]
    for allowed, must, forbid in end_configs(w, h, n_in, n_out, mode, use_ends):
        for g in layouts(w, h, L, allowed, len(network), n_in, n_out, stats=stats):
            if stats is not None:
                stats['leaves'] = stats.get('leaves', 0) + 1
            if realises(Trace(g, w, h), network, must, forbid):
                yield tuple(g[x, y] for y in range(h) for x in range(w))
