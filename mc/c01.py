"""C01: the product's layout model accepts exactly the buildable layouts.

Explicit-state exploration: a state is a partial layout.  Product and reference walk the same tree of partial
layouts; a branch is cut only when BOTH already refuse it, so every layout on which they could differ is reached.
"""
import itertools
import json

from .bridge import Acceptor, edge_mode, grid_from_json
from .common import Check, REPO, pmap
from .ref import ALPHABET, BELTS, E, Rules, SPLITS, UGS, VEC, pair_ok, show

from factorio_sat.solver import Grid

F4 = (False,) * 4
T4 = (True,) * 4
INF = None


def make_grid(w, h, wrap, L, bb=F4, ub=F4, colours=1):
    g = Grid(w, h, colours, float('inf') if L is None else L, edge_mode=edge_mode(wrap))
    g.prevent_bad_undergrounding()
    g.prevent_intersection()
    g.enforce_maximum_underground_length()
    if any(bb):
        g.block_belts_through_edges(edges(bb))
    if any(ub):
        g.block_underground_through_edges(edges(ub))
    return g


def edges(b):
    """the shortest way to name these edges: one flag, a flag per axis, or one per edge"""
    if b[0] == b[2] and b[1] == b[3]:
        return b[0] if b[0] == b[1] else b[:2]
    return b


def joint(item):
    """Walk all layouts of one configuration (below a given first tile)."""
    w, h, wrap, L, bb, ub, alpha, first, name = item
    acc = Acceptor(make_grid(w, h, wrap, L, bb, ub), alpha)
    R = Rules(w, h, wrap, L, bb, ub)
    cells = [(x, y) for y in range(h) for x in range(w)]
    G = {}
    st = dict(states=0, transitions=0, leaves=0, accepted=0)
    bad = []
    nbs = {c: [(d, R.nb[c[0], c[1], d]) for d in range(4) if R.nb[c[0], c[1], d] is not None] for c in cells}

    def rec(k, assum, refok):
        if len(bad) >= 5:
            return
        if k == len(cells):
            st['leaves'] += 1
            c = acc.accepts(assum)
            r = refok and R.legal(G)
            st['accepted'] += c
            if c != r:
                bad.append(('layout %s by the model but is %s: %dx%d wrap=%s limit=%s belt_block=%s underground_block=%s\n%s' % (
                    'accepted' if c else 'refused', 'buildable' if r else 'not buildable', w, h, wrap, L, bb, ub, show(G, w, h)), repr((item[:6], G))))
            return
        cell = cells[k]
        x, y = cell
        for t in ([first] if k == 0 and first is not None else alpha):
            G[cell] = t
            r = refok and R.cell_ok(G, x, y)
            if r:
                for d, n in nbs[cell]:
                    if n in G and not pair_ok(t, d, G[n]):
                        r = False
                        break
            st['transitions'] += 1
            a = assum + [acc.sel[x, y, t]]
            if not r and not acc.maybe(a):
                continue
            st['states'] += 1
            rec(k + 1, a, r)
        del G[cell]
    rec(0, [], True)
    acc.close()
    return dict(counts=dict(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=st['leaves']),
                part=(name, dict(configs=1, leaves=st['leaves'], accepted=st['accepted'])), violations=bad)


# -- partial layouts inside larger grids -------------------------------------------------------------------------

def completable(R, P):
    """Exhaustive search for a buildable layout containing the partial layout P (reference only)."""
    cells = sorted(((x, y) for y in range(R.h) for x in range(R.w) if (x, y) not in P),
                   key=lambda c: min(abs(c[0] - p[0]) + abs(c[1] - p[1]) for p in P))
    G = dict(P)
    for (x, y), t in P.items():
        if not R.cell_ok(G, x, y):
            return None
        for d in range(4):
            n = R.nb[x, y, d]
            if n in P and not pair_ok(t, d, P[n]):
                return None
        if t[0] == 'U' and not R.ug_partial_ok(P, x, y):
            return None
    lines = [p for p, t in P.items() if t[0] == 'U']
    budget = [5000]

    def rec(k):
        if k == len(cells):
            return dict(G) if R.legal(G) else None
        x, y = cells[k]
        for t in ALPHABET:
            budget[0] -= 1
            if budget[0] < 0:
                raise TimeoutError
            G[x, y] = t
            if R.cell_ok(G, x, y) and all(pair_ok(t, d, G[R.nb[x, y, d]]) for d in range(4) if R.nb[x, y, d] in G) \
                    and (t[0] != 'U' or R.ug_partial_ok(G, x, y)) and all(R.ug_partial_ok(G, *p) for p in lines):
                res = rec(k + 1)
                if res is not None:
                    return res
            del G[x, y]
        return None
    return rec(0)


def partials(item):
    """Every partial layout of a family: what the product completes must be buildable and contain it,
    what the product refuses must be impossible to complete."""
    w, h, wrap, L, bb, ub, family, arg, name = item
    acc = Acceptor(make_grid(w, h, wrap, L, bb, ub))
    R = Rules(w, h, wrap, L, bb, ub)
    st = dict(n=0, sat=0, gaveup=0)
    bad = []
    for P in family_of(family, w, h, wrap, arg):
        st['n'] += 1
        c = acc.accepts([acc.sel[x, y, t] for (x, y), t in P.items()])
        if c:
            st['sat'] += 1
            sol = acc.grid.parse_solution(acc.s.get_model())
            G, _, _ = grid_from_json(sol.tolist())
            if not R.legal(G):
                bad.append(('the model completes a partial layout to one that is not buildable: %dx%d wrap=%s limit=%s %s %s partial=%s\n%s' % (
                    w, h, wrap, L, bb, ub, P, show(G, w, h)), repr(P)))
            elif any(G[p] != t for p, t in P.items()):
                bad.append(('the layout read back from a solution differs from the tiles placed: %s\n%s' % (P, show(G, w, h)), repr(P)))
        else:
            try:
                G = completable(R, P)
            except TimeoutError:
                st['gaveup'] += 1
                G = None
            if G is not None:
                bad.append(('the model refuses a partial layout that is buildable: %dx%d wrap=%s limit=%s %s %s partial=%s\n%s' % (
                    w, h, wrap, L, bb, ub, P, show(G, w, h)), repr(P)))
        if len(bad) >= 5:
            break
    acc.close()
    return dict(counts=dict(states=st['n'], transitions=st['n'], traces_validated_against_impl=st['n']),
                part=(name, dict(partial_layouts=st['n'], completable=st['sat'], undecided_by_reference=st['gaveup'])), violations=bad)


def family_of(family, w, h, wrap, arg):
    if family == 'pair':            # all adjacent pairs at column/row position arg
        x, y, d = arg
        nx, ny = x + VEC[d][0], y + VEC[d][1]
        if wrap[0]:
            nx %= w
        if wrap[1]:
            ny %= h
        if not (0 <= nx < w and 0 <= ny < h) or (nx, ny) == (x, y):
            for a in ALPHABET:
                yield {(x, y): a}
            return
        for a in ALPHABET:
            for b in ALPHABET:
                yield {(x, y): a, (nx, ny): b}
    elif family == 'line':          # entrance ... exit at every distance, in every row/column and direction
        d, Lmax = arg
        n = w if d % 2 == 0 else h
        for x in range(w):
            for y in range(h):
                for k in range(0, n):
                    cells = []
                    px, py = x, y
                    ok = True
                    for _ in range(k + 1):
                        px, py = px + VEC[d][0], py + VEC[d][1]
                        if wrap[0]:
                            px %= w
                        if wrap[1]:
                            py %= h
                        if not (0 <= px < w and 0 <= py < h):
                            ok = False
                            break
                        cells.append((px, py))
                    if not ok or len(set(cells + [(x, y)])) != len(cells) + 1:
                        continue
                    fillers = [E, ('U', (d + 1) % 4, True), ('B', (d + 1) % 4, (d + 1) % 4), ('B', d, d)]
                    for f in fillers:
                        if k == 0 and f != E:
                            continue
                        P = {(x, y): ('U', d, True), cells[-1]: ('U', d, False)}
                        for c in cells[:-1]:
                            P[c] = f
                        yield P
                        P = dict(P)
                        P[cells[-1]] = ('U', d, True)
                        yield P
                        # no exit within reach: k+1 covered cells
                        P = dict(P)
                        P[cells[-1]] = f
                        yield P
                        P = dict(P)
                        P[x, y] = f
                        P[cells[-1]] = ('U', d, False)
                        yield P


# -- real balancers and their one-cell neighbourhood --------------------------------------------------------------

def book_layouts():
    """All layouts in the blueprint books, by an independent reading of the string format."""
    import base64
    import zlib
    res = []
    for name in ('yellow_area', 'yellow_narrow', 'red_area', 'red_narrow', 'blue_area', 'blue_narrow'):
        raw = open('%s/books/%s.txt' % (REPO, name)).read().strip()
        book = json.loads(zlib.decompress(base64.b64decode(raw[1:])))
        stack = [book]
        while stack:
            b = stack.pop()
            if 'blueprint_book' in b:
                stack += b['blueprint_book']['blueprints']
            else:
                g = read_entities(b['blueprint']['entities'])
                res.append((name, b['blueprint'].get('label'), g))
    return res


def read_entities(ents):
    """Independent blueprint reader (reference)."""
    fd = {0: 1, 2: 0, 4: 3, 6: 2}
    raw = {}
    for e in ents:
        x, y = e['position']['x'], e['position']['y']
        d = fd[e.get('direction', 0)]
        n = e['name']
        if n.endswith('splitter'):
            hx, hy = VEC[(d + 1) % 4]
            raw[int((x - hx / 2) // 1), int((y - hy / 2) // 1)] = ('S', d, True)
            raw[int((x + hx / 2) // 1), int((y + hy / 2) // 1)] = ('S', d, False)
        elif n.endswith('underground-belt'):
            raw[int(x // 1), int(y // 1)] = ('U', d, e['type'] == 'input')
        else:
            raw[int(x // 1), int(y // 1)] = ('B', d, d)
    mx, my = min(p[0] for p in raw), min(p[1] for p in raw)
    g = {(x - mx, y - my): t for (x, y), t in raw.items()}
    w, h = max(p[0] for p in g) + 1, max(p[1] for p in g) + 1
    for y in range(h):
        for x in range(w):
            g.setdefault((x, y), E)
    def out(t):
        return t[1] if t[0] == 'S' else (t[2] if t[0] == 'B' else (t[1] if t[0] == 'U' and not t[2] else None))
    fixed = {}
    for (x, y), t in g.items():
        if t[0] == 'B':
            feeds = [d for d in range(4) if d != (t[2] + 2) % 4 and (x - VEC[d][0], y - VEC[d][1]) in g
                     and out(g[x - VEC[d][0], y - VEC[d][1]]) == d]
            if len(feeds) == 1:
                fixed[x, y] = ('B', feeds[0], t[2])
    g.update(fixed)
    return g, w, h


def neighbourhood(item):
    """A real balancer must be accepted; every one-cell change of it is judged as the reference judges it."""
    g, w, h, L, depth2, name = item
    acc = Acceptor(make_grid(w, h, (False, False), L))
    R = Rules(w, h, (False, False), L)
    bad = []
    n = 0
    lits = {c: acc.sel[c[0], c[1], t] for c, t in g.items()}

    def judge(G, assum):
        c, r = acc.accepts(assum), R.legal(G)
        if c != r:
            bad.append(('layout %s by the model but is %s: %dx%d limit=%s\n%s' % (
                'accepted' if c else 'refused', 'buildable' if r else 'not buildable', w, h, L, show(G, w, h)), repr(G)))
    judge(g, list(lits.values()))
    n += 1
    for c in g:
        for t in ALPHABET:
            if t == g[c]:
                continue
            G = dict(g)
            G[c] = t
            judge(G, [acc.sel[c[0], c[1], t] if k == c else v for k, v in lits.items()])
            n += 1
            if len(bad) >= 5:
                break
    acc.close()
    return dict(counts=dict(states=n, transitions=n - 1, traces_validated_against_impl=n), part=(name, dict(layouts=1, judged=n)), violations=bad[:5],
                samples=[show(g, w, h)])


def run(tier):
    chk = Check('C01', 'model_checking', tier,
                'all layouts of the stated grids over the stated alphabet (joint walk of product model and reference), all adjacent pairs and underground lines '
                'at every position of larger grids, and all one-cell changes of real balancers')
    NW = (False, False)
    wraps = list(itertools.product((False, True), repeat=2))
    items = []
    small = [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2)]
    blocks = list(itertools.product((False, True), repeat=4))
    for w, h in small:
        for wrap in wraps:
            for L in (1, 2, 4, INF):
                items.append((w, h, wrap, L, F4, F4, ALPHABET, None, 'small'))
        for b in blocks[1:]:
            items.append((w, h, NW, 4, b, F4, ALPHABET, None, 'small-blocked'))
            items.append((w, h, NW, 4, F4, b, ALPHABET, None, 'small-blocked'))
        items.append((w, h, NW, 4, T4, T4, ALPHABET, None, 'small-blocked'))
        items.append((w, h, NW, 4, (False, True, False, True), T4, ALPHABET, None, 'small-blocked'))
    mid = [(4, 1), (1, 4)]
    for w, h in mid:
        for wrap in wraps:
            for L in (1, 2, INF):
                items.append((w, h, wrap, L, F4, F4, ALPHABET, None, 'strip4'))
    big = [((3, 2), (False, False), 4, F4, F4), ((3, 2), (True, True), 4, F4, F4), ((2, 3), (True, True), 1, F4, F4), ((2, 3), NW, 1, T4, T4), ((3, 2), NW, 4, T4, T4),
           ((3, 3), NW, 4, T4, T4)]
    if tier == 'thorough':
        big += [((2, 3), (False, False), 1, F4, F4), ((3, 2), (True, False), 4, F4, F4), ((3, 2), (False, True), 4, F4, F4), ((3, 3), (True, True), 4, F4, F4),
                ((4, 3), NW, 4, T4, T4), ((5, 1), NW, 4, F4, F4), ((4, 2), (True, True), 2, F4, F4), ((4, 2), NW, 2, T4, T4)]
    for (w, h), wrap, L, bb, ub in big:
        for t in ALPHABET:
            items.append((w, h, wrap, L, bb, ub, ALPHABET, t, '%dx%d' % (w, h)))
    # long strips: undergrounds along the strip, crossing belts and undergrounds
    N = 9 if tier == 'quick' else 11
    along = {0: [E, ('B', 0, 0), ('U', 0, True), ('U', 0, False), ('U', 2, True), ('U', 2, False)],
             1: [E, ('B', 1, 1), ('U', 1, True), ('U', 1, False), ('U', 3, True), ('U', 3, False)]}
    for L in (1, 2, 3, 4, 5, 6, 7, 8, INF):
        for wr in (False, True):
            for axis, alpha in along.items():
                for n in ((N,) if L is None or L > 5 else (N - 2,)):
                    w, h = (n, 1) if axis == 0 else (1, n)
                    items.append((w, h, (wr and axis == 0, wr and axis == 1), L, F4, F4, alpha, None, 'strips'))
    pmap(joint, sorted(items, key=lambda i: -i[0] * i[1]), chk)

    items = []
    for (w, h), wrap, bb, ub in (((5, 4), NW, F4, T4), ((5, 4), (True, True), F4, F4), ((4, 5), NW, (False, True, False, True), T4)):
        for x in range(w):
            for y in range(h):
                for d in ((0, 3) if tier == 'quick' else range(4)):
                    items.append((w, h, wrap, 4, bb, ub, 'pair', (x, y, d), 'pairs-in-grid'))
    for L in (1, 2, 3, 4, 6, 8):
        n = min(L + 4, 10)
        for d in range(4):
            wh = (n, 3) if d % 2 == 0 else (3, n)
            items.append(wh + (NW, L, F4, T4, 'line', (d, L), 'lines-in-grid'))
            if L <= (4 if tier == 'quick' else 8):
                items.append(wh + ((True, True), L, F4, F4, 'line', (d, L), 'lines-in-grid'))
    pmap(partials, sorted(items, key=lambda i: -i[0] * i[1] * (50 if i[6] == 'line' else 1)), chk)

    lays = book_layouts()
    items = []
    for i, (book, label, (g, w, h)) in enumerate(lays):
        L = {'yellow': 4, 'red': 6, 'blue': 8}[book.split('_')[0]]
        if tier == 'quick' and not (i % 9 == 0 and w * h <= 70):
            continue
        items.append((g, w, h, L, False, 'balancers-and-neighbours'))
    pmap(neighbourhood, items, chk)
    pmap(accept_only, [(g, w, h, {'yellow': 4, 'red': 6, 'blue': 8}[b.split('_')[0]]) for i, (b, _, (g, w, h)) in enumerate(lays)
                       if tier == 'thorough' or (i % 4 == 3 and w * h <= 120)], chk)
    return chk.finish(['the reference model in mc/ref.py states the belt-laying rules', 'PySAT decides the fixed-tile instances correctly'])


def accept_only(item):
    g, w, h, L = item
    grid = make_grid(w, h, (False, False), L)
    from .bridge import to_impl
    for (x, y), t in g.items():
        grid.set_tile(x, y, to_impl(t))
    sol = grid.solve()
    bad = []
    if sol is None:
        bad.append(('a shipped balancer is refused: %dx%d limit=%s\n%s' % (w, h, L, show(g, w, h)), repr(g)))
    else:
        G, _, _ = grid_from_json(sol.tolist())
        if G != g:
            bad.append(('the layout read back differs:\n%s\n---\n%s' % (show(g, w, h), show(G, w, h)), repr(g)))
    return dict(counts=dict(states=1, transitions=0, traces_validated_against_impl=1), part=('balancers', dict(layouts=1)), violations=bad)
