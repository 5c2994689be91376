"""C08: pruning rules.  All layouts of small grids are walked; on every buildable one each rule of the product is asked
whether it removes it, against pictures stated once and closed under the symmetries (mc/patterns.py).
Matching and nearly matching windows are then placed at every position of larger grids, and the shipped balancers are
judged in all eight orientations."""
import itertools
import json

from . import bal, books, patterns as P
from .balrun import NETS, generate, net_text, options, shipped
from .bridge import Acceptor, grid_from_json, to_json_tile
from .c01 import F4, T4, make_grid
from .common import Check, pmap
from .ref import ALPHABET, BELTS, E, Rules, SPLITS, UGS, pair_ok, show

from factorio_sat import optimisations as O

NW = (False, False)


class Guarded(Acceptor):
    """the product's layout model with every rule switchable"""

    def __init__(self, w, h, wrap, L, bb, ub, alphabet, rules, cells=None):
        self.rule = {}
        g = make_grid(w, h, wrap, L, bb, ub)
        guarded = []
        for name, args in rules:
            n = len(g.clauses)
            getattr(O, name)(g, **args)
            new = g.clauses[n:]
            del g.clauses[n:]
            v = g.allocate_variable()
            self.rule[name] = v
            guarded += [[-v] + list(c) for c in new]
        super().__init__(g, alphabet, cells=cells)
        for c in guarded:
            self.s.add_clause(c)


def region_of(args, w, h):
    if not args:
        return None
    return args.get('min_x', 0), args.get('min_y', 0), args.get('max_x', w - 1), args.get('max_y', h - 1)


def setup(w, h, wrap, L, bb, ub, names, alphabet, cells=None):
    rules = []
    refs = []
    for n in names:
        name, args = n if isinstance(n, tuple) else (n, {})
        rules.append((name, args))
        if name == 'apply_generic_optimisations':
            continue
        refs.append(P.make(name, w, h, L, region_of(args, w, h)))
    return Guarded(w, h, wrap, L, bb, ub, alphabet, rules, cells), refs


def judge(acc, refs, R, G, assum, what, bad, others=True):
    """compare the product's verdict on one complete layout with the pictures"""
    always, rest = P.matched(G, R, refs)
    asked = 0

    def complain(text):
        bad.append(('%s: %s\n%s' % (what, text, show(G, R.w, R.h)), repr(G)))
    for n in always:
        asked += 1
        if acc.accepts(assum + [acc.rule[n]]):
            complain('%s lets a layout with its pattern through' % n)
    free = [r.name for r in refs if r.name not in always]
    if rest and free:
        asked += 1
        if not acc.accepts(assum + [acc.rule[n] for n in free]):
            for n in free:
                if not acc.accepts(assum + [acc.rule[n]]):
                    complain('%s removes a layout without its pattern' % n)
            if not bad:
                complain('the rules %s together remove a layout with none of their patterns' % free)
    elif free:
        for n in free:
            asked += 1
            if not acc.accepts(assum + [acc.rule[n]]):
                complain('%s removes a layout without its pattern' % n)
    if others and 'apply_generic_optimisations' in acc.rule:
        gen = [r for r in refs if r.name in P.GENERIC]
        out = P.excluded(G, R, gen)
        asked += 1
        if acc.accepts(assum + [acc.rule['apply_generic_optimisations']]) == out:
            complain('apply_generic_optimisations %s' % ('lets a layout with one of its patterns through' if out else 'removes a layout with none of its patterns'))
    return always, asked


def walk(item):
    w, h, wrap, L, bb, ub, alpha, first, names, name = item
    acc, refs = setup(w, h, wrap, L, bb, ub, names, alpha)
    R = Rules(w, h, wrap, L, bb, ub)
    cells = [(x, y) for y in range(h) for x in range(w)]
    G = {}
    st = dict(states=0, transitions=0, leaves=0)
    hits = {}
    bad = []
    nbs = {c: [(d, R.nb[c[0], c[1], d]) for d in range(4) if R.nb[c[0], c[1], d] is not None] for c in cells}
    what = '%dx%d wrap=%s limit=%s belt_block=%s' % (w, h, wrap, L, bb)

    def rec(k, assum):
        if len(bad) >= 5:
            return
        if k == len(cells):
            if not R.legal(G) or not acc.accepts(assum):
                return              # what is buildable at all is decided by C01
            st['leaves'] += 1
            always, n = judge(acc, refs, R, G, assum, what, bad)
            for n in always:
                hits[n] = hits.get(n, 0) + 1
            return
        x, y = cell = cells[k]
        for t in ([first[k]] if first and k < len(first) else alpha):
            G[cell] = t
            st['transitions'] += 1
            if R.cell_ok(G, x, y) and all(n not in G or pair_ok(t, d, G[n]) for d, n in nbs[cell]) and (t[0] != 'U' or R.ug_partial_ok(G, x, y)):
                st['states'] += 1
                rec(k + 1, assum + [acc.sel[x, y, t]])
        del G[cell]
    rec(0, [])
    acc.close()
    return dict(counts=dict(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=st['leaves']),
                part=(name, dict(configs=1, layouts=st['leaves'], **hits)), violations=bad)


def windows(item):
    """All buildable windows that show a pattern, and those that do not but are one tile away, at every position of a larger grid."""
    name, ww, wh, alpha, w, h, L, args, chunk = item
    Rw = Rules(ww, wh, NW, None)
    cells = [(x, y) for y in range(wh) for x in range(ww)]
    plain = P.make(name, 50, 50, L)
    plain.region = plain.exempt = None
    acc, refs = setup(w, h, NW, L, F4, T4, [(name, args)], ALPHABET)
    R = Rules(w, h, NW, L, F4, T4)
    ref = refs[0]
    st = dict(states=0, transitions=0, refused=0, completed=0, undecided=0)
    bad = []
    what = '%s in %dx%d limit=%s %s' % (name, w, h, L, args or '')
    hits, near = [], []
    G = {}

    def rec(k):
        if k == len(cells):
            if not all(Rw.half_connected(G, *c) for c in cells if G[c][0] == 'S'):
                return
            always, _ = P.matched(G, Rw, [plain])
            (hits if always else near).append(dict(G))
            return
        x, y = cell = cells[k]
        for t in alpha:
            G[cell] = t
            st['transitions'] += 1
            if (x == 0 or pair_ok(G[x - 1, y], 0, t)) and (y == 0 or pair_ok(G[x, y - 1], 3, t)):
                st['states'] += 1
                rec(k + 1)
        del G[cell]
    rec(0)
    keys = {tuple(g[c] for c in cells) for g in hits}

    def close(g):
        k = tuple(g[c] for c in cells)
        return any(k[:i] + (t,) + k[i + 1:] in keys for i in range(len(k)) for t in alpha)
    near = [g for g in near if close(g)]
    if chunk is not None:
        hits, near = hits[chunk[0]::chunk[1]], near[chunk[0]::chunk[1]]
    for g in hits + near:
        for ox in range(w - ww + 1):
            for oy in range(h - wh + 1):
                part = {(x + ox, y + oy): t for (x, y), t in g.items()}
                assum = [acc.sel[x, y, t] for (x, y), t in part.items()]
                if not acc.accepts(assum):
                    continue
                st['n'] = st.get('n', 0) + 1
                on = acc.accepts(assum + [acc.rule[name]])
                if on:
                    sol, _, _ = grid_from_json(acc.grid.parse_solution(acc.s.get_model()).tolist())
                    st['completed'] += 1
                    if P.excluded(sol, R, [ref]):
                        bad.append(('%s lets a layout with its pattern through:\n%s' % (what, show(sol, w, h)), repr(sol)))
                else:
                    st['refused'] += 1
                    # Some layout with the window and without the pattern?  First the model's own layouts, then the window alone.
                    found = complete(acc, assum, R, ref)
                    if found is None:
                        st['undecided'] += 1
                    elif found:
                        bad.append(('%s removes a layout without its pattern:\n%s' % (what, show(found, w, h)), repr(found)))
                if len(bad) >= 5:
                    break
    acc.close()
    return dict(counts=dict(states=st['states'] + st.get('n', 0), transitions=st['transitions'], traces_validated_against_impl=st.get('n', 0)),
                part=('windows ' + name, dict(windows=len(hits) + len(near), placed=st.get('n', 0), refused=st['refused'], completed=st['completed'], only_completed_with_the_pattern=st['undecided'])), violations=bad)


def complete(acc, assum, R, ref, tries=6):
    """a few buildable completions of a refused window: none may be free of the pattern"""
    blocked = []
    res = False
    for _ in range(tries):
        if not acc.s.solve(assumptions=assum + blocked):
            break
        model = acc.s.get_model()
        sol, _, _ = grid_from_json(acc.grid.parse_solution(model).tolist())
        if R.legal(sol) and not P.excluded(sol, R, [ref]):
            return sol
        v = acc.grid.allocate_variable()
        acc.s.add_clause([-v] + [-lit for (x, y), t in sol.items() for lit in model_lits(acc, x, y, model)])
        blocked.append(v)
    return res


def model_lits(acc, x, y, model):
    t = acc.grid.get_tile_instance(x, y)
    m = set(model)
    return [v if v in m else -v for v in list(t.input_direction) + list(t.output_direction)]


def real(item):
    L, label, g, w, h, names = item
    acc, refs = setup(w, h, NW, L, F4, T4, names, {c: [t] for c, t in g.items()})
    R = Rules(w, h, NW, L, F4, T4)
    bad = []
    assum = [acc.sel[x, y, t] for (x, y), t in g.items()]
    hit = 0
    if acc.accepts(assum):
        always, _ = judge(acc, refs, R, g, assum, 'balancer %s limit=%s' % (label, L), bad)
        hit = bool(always)
    acc.close()
    return dict(counts=dict(states=1, transitions=0, traces_validated_against_impl=1), part=('balancers', dict(layouts=1, with_a_pattern=hit)), violations=bad)


BAD = ('prevent_belt_hooks', 'prevent_semicircles', 'prevent_small_loops', 'prevent_underground_hook', 'prevent_zigzags', 'prevent_belt_parallel_splitter')
OPTIONS = {
    '--glue-splitters': ('glue_splitters', 'glue_partial_splitters'),
    '--expand-underground': ('expand_underground',),
    '--prevent-mergeable-underground': ('prevent_mergeable_underground',),
    '--prevent-bad-patterns': BAD,
    '--edge-belts': ('edge-belts',),
    '--edge-splitters': ('edge-splitters',),
    '--fast': ('glue_splitters', 'glue_partial_splitters', 'expand_underground', 'prevent_mergeable_underground', 'edge-splitters') + BAD,
}


def edge_belts(g, w, h):
    """two straight belts side by side in the second or last but one column"""
    return any(g[x, y] == g[x, y + 1] == ('B', 0, 0) for x in (1, max(w - 2, 1)) for y in range(h - 1))


def edge_splitters(g, w, h):
    """a splitter fed by two inputs of the balancer (feeding two outputs) that is not in the second (last but one) column, travelling right"""
    tr = bal.Trace(g, w, h)
    for i, (a, b) in enumerate(tr.cells):
        ins = [s for s, d in tr.wires if d[:2] == ('s', i)] + [('in',) for e in tr.edge_in if e[0] == i]
        outs = [d for s, d in tr.wires if s[:2] == ('s', i)]
        for ends, what, col in ((ins, 'in', 1), (outs, 'out', w - 2)):
            if len(ends) == 2 and all(e[0] == what for e in ends) and not (a[0] == col and g[a][1] == 0):
                return True
    return False


def cli(item):
    """an option of the balancer generator removes exactly the layouts with its patterns from what is printed without it"""
    name, w, h, L, mode, ue, choices = item
    text = NETS.get(name) or shipped(name)
    base = generate(text, w, h, options(L, mode, ue))
    R = Rules(w, h, NW, L)
    refs = {r: P.make(r, w, h, L, (1, 0, w - 2, h - 1) if r == 'expand_underground' else None) for o in choices for q in o for r in OPTIONS[q] if not r.startswith('edge-')}
    has = {}
    for k, (_, conn), g in base:
        sig = {}
        cover = next(P.cells_of(g, R))
        for c, t in g.items():
            i, o = conn[c[1] * w + c[0]]
            s = cover[c]
            sig[c] = (s[0], i, o, s[3], s[4]) if t[0] == 'S' else s
        has[k, conn] = {n for n, r in refs.items() if r.matches(sig, R)} | ({'edge-belts'} if edge_belts(g, w, h) else set()) | ({'edge-splitters'} if edge_splitters(g, w, h) else set())
    bad = []
    runs = 0

    def pic(k):
        return show({(x, y): k[0][y * w + x] for x in range(w) for y in range(h)}, w, h)
    hits = {}
    for opts in choices:
        rules = {r for o in opts for r in OPTIONS[o]}
        wanted = {k for k, v in has.items() if not v & rules}
        hits['removed by ' + ' '.join(opts)] = len(has) - len(wanted)
        got = generate(text, w, h, options(L, mode, ue) + list(opts))
        keys = set(c for _, c, _ in got)
        desc = 'belt_balancer %s %dx%d underground=%s ends=%s %s' % (name, w, h, L, mode, ' '.join(opts))
        for what, s in (('removed without one of the patterns', wanted - keys), ('printed with one of the patterns', keys - wanted)):
            if s:
                bad.append(('%s: %d layout(s) %s, e.g.\n%s' % (desc, len(s), what, pic(min(s, key=repr))), repr((item, min(s, key=repr)))))
        if len(keys) != len(got):
            bad.append(('%s: %d layouts printed more than once' % (desc, len(got) - len(keys)), repr(item)))
        runs += len(got)
    return dict(counts=dict(states=len(base), transitions=len(base) * len(choices), traces_validated_against_impl=runs), part=('cli', dict(runs=len(choices), layouts=len(base), **hits)), violations=bad)


def merge_layout(up):
    """1 to 2 with two undergrounds that could be one, crossed by the other belt"""
    w, h = 9, 3
    g = {(x, y): E for x in range(w) for y in range(h)}
    g.update({(0, 1): ('B', 0, 0), (1, 2): ('S', 0, True), (1, 1): ('S', 0, False), (2, 1): ('U', 0, True), (4, 1): ('U', 0, False), (5, 1): ('U', 0, True), (7, 1): ('U', 0, False), (8, 1): ('B', 0, 0),
              (2, 2): ('B', 0, 0), (3, 2): ('B', 0, 1), (3, 1): ('B', 1, 1), (3, 0): ('B', 1, 0), (4, 0): ('B', 0, 0), (5, 0): ('B', 0, 0), (6, 0): ('B', 0, 3), (6, 1): ('B', 3, 3),
              (6, 2): ('B', 3, 0), (7, 2): ('B', 0, 0), (8, 2): ('B', 0, 0)})
    return g, w, h


def pinned(item):
    """a complete layout given as --partial is printed unless the option forbids it"""
    g, w, h, L, label, choices = item
    net = bal.network_of(bal.Trace(g, w, h))
    R = Rules(w, h, NW, L)
    part = json.dumps([[{'tile': to_json_tile(g[x, y] if g[x, y] != E else ('X',))} for x in range(w)] for y in range(h)])
    refs = {r: P.make(r, w, h, L, (1, 0, w - 2, h - 1) if r == 'expand_underground' else None) for o in choices for q in o for r in OPTIONS[q] if not r.startswith('edge-')}
    empty = P.make('prevent_empty_along_underground', w, h, L)
    bad = []
    hits = {}
    for opts in choices:
        rules = {r for o in opts for r in OPTIONS[o]}
        out = P.excluded(g, R, [empty] + [refs[r] for r in rules if r in refs]) or 'edge-belts' in rules and edge_belts(g, w, h) or 'edge-splitters' in rules and edge_splitters(g, w, h)
        got = generate(net_text(net), w, h, ['--custom', '--underground-length', L] + list(opts), part)
        hits[' '.join(opts)] = int(out)
        if bool(got) == bool(out):
            bad.append(('belt_balancer --custom %s underground=%s %s the layout %s\n%s' % (' '.join(opts), L, 'prints' if got else 'refuses', label, show(g, w, h)), repr((item, opts))))
    return dict(counts=dict(states=1, transitions=len(choices), traces_validated_against_impl=len(choices)), part=('given layouts', dict(layouts=1, **hits)), violations=bad)


def run(tier):
    chk = Check('C08', 'model_checking', tier, 'all layouts of the listed grids; all matching windows and their one-tile neighbours at all positions of larger grids; shipped balancers in eight orientations')
    th = tier == 'thorough'
    full = list(P.ALL) + ['apply_generic_optimisations']
    items = []
    for w, h in [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (4, 1), (1, 4)]:
        for L in (1, 2, 4, None):
            items.append((w, h, NW, L, F4, F4, ALPHABET, None, full, 'small'))
        items.append((w, h, NW, 4, F4, T4, ALPHABET, None, full, 'small'))
        items.append((w, h, NW, 4, T4, T4, ALPHABET, None, full, 'small'))
        items.append((w, h, (True, True), 2, F4, F4, ALPHABET, None, ['prevent_small_loops', 'prevent_empty_along_underground'], 'small-tiled'))
    for t in ALPHABET:
        for w, h in (3, 2), (2, 3):
            items.append((w, h, NW, 3, F4, F4, ALPHABET, [t], full, '3x2'))
            if th:
                items.append((w, h, NW, 2, F4, T4, ALPHABET, [t], full, '3x2'))
        items.append((3, 3, NW, 4, T4, T4, ALPHABET, [t], full, '3x3-closed'))
        if t[0] != 'U':
            items.append((3, 3, NW, 4, (True, False, True, False), T4, [E] + BELTS + SPLITS, [t], full, '3x3-no-ug') if th else
                         (3, 3, NW, 4, (True, False, True, True), T4, [E] + BELTS + SPLITS, [t], full, '3x3-no-ug'))
    for d in range(4):
        N = 9 if th else 8
        w, h = (N, 1) if d % 2 == 0 else (1, N)
        alpha = [E, ('B', d, d), ('U', d, True), ('U', d, False), ('U', (d + 2) % 4, True), ('U', (d + 2) % 4, False), ('B', (d + 1) % 4, (d + 1) % 4)]
        exp = [('expand_underground', a) for a in ({}, )]
        for L in (1, 2, 3, 4, 5, 6, None):
            for first in itertools.product(alpha, repeat=1):
                items.append((w, h, NW, L, F4, F4, alpha, list(first), ['prevent_empty_along_underground', 'prevent_mergeable_underground', 'expand_underground'], 'strips'))
            lim = dict(min_x=1, max_x=w - 2) if d % 2 == 0 else dict(min_y=1, max_y=h - 2)
            items.append((w - 1 if w > 1 else 1, h - 1 if h > 1 else 1, NW, L, F4, F4, alpha, None,
                          [('expand_underground', dict(min_x=1, max_x=w - 3) if d % 2 == 0 else dict(min_y=1, max_y=h - 3))], 'strips-region'))
        items.append((w, h, (d % 2 == 0, d % 2 == 1), 4, F4, F4, alpha, None, ['prevent_empty_along_underground'], 'strips-tiled'))
        N = 14 if th else 12
        w, h = (N, 1) if d % 2 == 0 else (1, N)
        few = [E, ('B', d, d), ('U', d, True), ('U', d, False)]
        for L in (7, 8, 9, 10):
            for first in itertools.product(few, repeat=1):
                items.append((w, h, NW, L, F4, F4, few, list(first), ['prevent_empty_along_underground', 'prevent_mergeable_underground', 'expand_underground'], 'long strips'))
    pmap(walk, sorted(items, key=lambda i: -i[0] * i[1] * len(i[6])), chk)
    items = []
    sq = {'prevent_small_loops': BELTS, 'prevent_belt_hooks': [E] + BELTS + SPLITS + UGS, 'prevent_zigzags': [E] + BELTS + SPLITS + UGS,
          'prevent_belt_parallel_splitter': [E] + BELTS + SPLITS, 'glue_splitters': [E] + BELTS + SPLITS}
    for d in range(4):
        n = 4
        o, q = (d + 1) % 4, (d + 3) % 4
        alpha = [E, ('B', d, d), ('B', o, d), ('B', q, d), ('S', d, True), ('S', d, False), ('B', o, o), ('U', d, True), ('U', d, False)]
        items += [('glue_partial_splitters',) + ((3, 2, alpha, 6, 3) if d % 2 == 0 else (2, 3, alpha, 4, 4)) + (4, {}, (k, n)) for k in range(n)]
    for name, alpha in sq.items():
        W, H = (5, 4) if th else (4, 4)
        if name.startswith('glue'):
            W = 6
        n = 4
        items += [(name, 2, 2, alpha, W, H, 4, {}, (k, n)) for k in range(n)]
    for ww, wh in ((3, 2), (2, 3)):
        W, H = (5, 4) if ww == 3 else (4, 5)
        n = 24
        items += [('prevent_semicircles', ww, wh, [E] + BELTS, W, H, 4, {}, (k, n)) for k in range(n)]
        items += [('prevent_underground_hook', ww, wh, [E] + BELTS + UGS, W, H, 4, {}, (k, n)) for k in range(n)] if th else []
    pmap(windows, items, chk)
    items = []
    nets = [('2x2', 5, 4, 4, 'straight', False), ('2x2', 6, 3, 2, 'straight', False), ('1x2', 7, 3, 3, 'straight', False), ('1x2', 5, 3, 4, 'straight', True), ('2x1', 6, 3, 4, 'aligned', False),
            ('pass', 6, 3, 4, 'straight', False), ('2x2b', 6, 3, 4, 'straight', False), ('2x2', 4, 4, 4, '90', True), ('2x2', 4, 4, 4, '180', False), ('1x4', 5, 4, 4, 'straight', False),
            ('4x1', 5, 4, 4, 'straight', False), ('2x4', 5, 4, 4, 'straight', False), ('4x4', 5, 4, 4, 'straight', False), ('4x4', 6, 4, 4, 'straight', False), ('bottle', 6, 3, 4, 'straight', False)]
    if th:
        nets += [('2x2', 7, 3, 4, 'straight', False), ('4x2', 6, 4, 4, 'straight', False), ('2x4', 6, 4, 4, 'straight', False), ('1x2', 8, 3, None, 'straight', False), ('2x1', 6, 4, 4, 'straight', False), ('pass', 7, 3, 4, 'straight', False)]
    combos = [('--glue-splitters', '--edge-belts', '--expand-underground'), ('--prevent-bad-patterns', '--expand-underground', '--prevent-mergeable-underground')]
    for n in nets:
        for part in ([(o,) for o in OPTIONS] + combos,) if not th else [[(o,)] for o in OPTIONS] + [combos]:
            items.append(n + (part,))
    pmap(cli, sorted(items, key=lambda i: -i[1] * i[2]), chk)
    lays = books.distinct_layouts()
    items = []
    single = [(o,) for o in OPTIONS]
    for L in (3, 4, 6):
        for m in (False, True):
            for q in range(4):
                items.append(books.turn(*merge_layout(True), m, q) + (L, 'with two undergrounds in a row', [o for o in single if o[0] not in ('--edge-splitters', '--fast')]))
    for i, (L, label, g, w, h) in enumerate(lays):
        if w * h <= (120 if th else 40):
            for q in range(8):
                if th or (q + i) % 4 == 0:
                    items.append(books.turn(g, w, h, q >= 4, q % 4) + (L, label, [o for o in single if o[0] not in ('--edge-splitters', '--fast')]))
    pmap(pinned, items, chk)
    items = []
    for i, (L, label, g, w, h) in enumerate(lays):
        if not th and (w * h > 60 or i % 2):
            continue
        for q in range(8):
            if not th and (q + i) % 3:
                continue
            g2, w2, h2 = books.turn(g, w, h, q >= 4, q % 4)
            items.append((L, label, g2, w2, h2, full))
    pmap(real, items, chk)
    return chk.finish(['mc/patterns.py states the pattern of each rule', 'mc/ref.py states the belt-laying rules'])
