"""C05: power-of-two balancers.  Oracle: exact flow after adding the outer columns of splitters."""
import itertools
import json
import os
from fractions import Fraction

from . import bal
from . import patterns as P
from .books import distinct_layouts
from .bridge import Acceptor, grid_from_json
from .common import Check, pmap, scratch, tool
from .ref import ALPHABET, E, Rules, pair_ok, show

from factorio_sat import belt_balancer_net_free_power_of_2 as p2

NW = (False, False)
CLOSED = (False, True, False, True)


def rules(w, h, L):
    return Rules(w, h, NW, L, belt_block=CLOSED, ug_block=(True,) * 4)


def verdict(g, w, h, R):
    """None if the interior does its job, else why not"""
    if any(g[x, y] != ('B', 0, 0) for x in (0, w - 1) for y in range(h)):
        return 'does not have all rows as inputs and outputs'
    if not R.legal(g):
        return 'is not buildable'
    tr = bal.Trace(g, w, h)
    n = len(tr.cells)
    wires = []
    for s, d in tr.wires:
        if s[0] == 'in':
            s = ('s', n + s[1][1] // 2, s[1][1] % 2)
        if d[0] == 'out':
            d = ('s', n + h // 2 + d[1][1] // 2, d[1][1] % 2)
        elif d[0] == 'bad':
            return 'is not buildable'
        wires.append((s, d))
    for y in range(h):
        wires.append((('in', (0, y), 0), ('s', n + y // 2, y % 2)))
        wires.append((('s', n + h // 2 + y // 2, y % 2), ('out', (w, y), 0)))
    reach = set()
    todo = [d[1] for s, d in wires if s[0] == 'in']
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += [d[1] for s, d in wires if s[0] == 's' and s[1] == i and d[0] == 's']
    idx = {i: k for k, i in enumerate(sorted(reach))}
    ww = []
    for s, d in wires:
        if s[0] == 's' and s[1] not in reach:
            if d[0] == 'out' or d[1] in reach:
                return 'is fed from a closed loop'
            continue
        ww.append((s if s[0] == 'in' else ('s', idx[s[1]], s[2]), d if d[0] == 'out' else ('s', idx[d[1]], d[2])))
    res = bal.flow(len(reach), ww)
    if res is None:
        return 'traps items'
    M = res[0]
    if any(v != Fraction(1, h) for r in M for v in r):
        return 'does not balance'
    return None


class Model:
    def __init__(self, w, h, L, alphabet=ALPHABET):
        g = p2.create_balancer(w, h, float('inf') if L is None else L)
        g.block_belts_through_edges((False, True))
        g.prevent_intersection()
        g.enforce_maximum_underground_length()
        self.acc = Acceptor(g, alphabet)


def enum4(item):
    """size 4 has no inner splitters: every splitter-free layout; accepted exactly when it balances"""
    w, L, firsts = item
    h = 4
    R = rules(w, h, L)
    model = Model(w, h, L)
    allowed = {}
    for x in range(w):
        for y in range(h):
            if x in (0, w - 1):
                allowed[x, y] = [('B', 0, 0)]
            else:
                allowed[x, y] = [t for t in ALPHABET if t[0] != 'S' and not any(bal.crossing(t, x, y, w, h))]
    for c, t in firsts.items():
        allowed[c] = [t] if t in allowed[c] else []
    st = {}
    n = acc = 0
    bad = []
    for g in bal.layouts(w, h, L, allowed, skip_empty_ug=False, stats=st):
        n += 1
        why = verdict(g, w, h, R)
        c = model.acc.accepts_layout(g)
        acc += c
        if c != (why is None):
            bad.append(('size 4: a layout that %s is %s\n%s' % (why or 'balances', 'accepted' if c else 'refused', show(g, w, h)), repr(g)))
            if len(bad) >= 3:
                break
    model.acc.close()
    return dict(counts=dict(states=n, transitions=st.get('transitions', 0), traces_validated_against_impl=n), part=('size 4, all layouts', dict(layouts=n, accepted=acc)), violations=bad)


def printed(item):
    w, h, L, opts, limit, two = item
    r = tool('belt_balancer_net_free_power_of_2', [w, h, '--underground-length', -1 if L is None else L] + list(opts), limit=limit).check()
    R = rules(w, h, L)
    bad = []
    seen = set()
    gs = []
    for line in r.lines:
        g, gw, gh = grid_from_json(json.loads(line))
        gs.append(g)
        why = 'has the wrong size' if (gw, gh) != (w, h) else verdict(g, w, h, R)
        k = tuple(sorted(g.items()))
        if why is None and k in seen:
            why = 'was printed before'
        seen.add(k)
        if why:
            bad.append(('%s: a printed layout %s\n%s' % (item, why, show(g, gw, gh)), repr((item, g))))
    n = near = nacc = 0
    if two and gs:
        near, nacc, b = around(gs[:two], w, h, L)
        bad += b
    return dict(counts=dict(states=len(gs) + near, transitions=len(gs) + near, traces_validated_against_impl=len(gs) + near),
                part=('printed, size %d' % h, dict(runs=1, layouts=len(gs), neighbours=near, neighbours_accepted=nacc)), violations=bad[:3], samples=[show(g, w, h) for g in gs[:1]])


def around(gs, w, h, L):
    """the layouts, their mirror images, and all layouts that differ from them in two neighbouring cells"""
    R = rules(w, h, L)
    model = Model(w, h, L)
    bad = []
    near = nacc = 0

    def judge(G):
        nonlocal near, nacc
        near += 1
        c = model.acc.accepts_layout(G)
        why = verdict(G, w, h, R)
        nacc += c
        if c and why:
            bad.append(('accepted a layout that %s\n%s' % (why, show(G, w, h)), repr(G)))
        elif not c and not why and simple(G, w, h):
            bad.append(('refused a layout that balances with the right number of splitters\n%s' % show(G, w, h), repr(G)))
    for g in gs:
        judge(g)
        judge(mirror(g, w, h))
        for (x, y) in sorted(g):
            for d in (0, 3):
                m = R.nb[x, y, d]
                if m is None:
                    continue
                for a in ALPHABET:
                    for b in ALPHABET:
                        G = dict(g)
                        G[x, y], G[m] = a, b
                        if G != g and fits(R, G, ((x, y), m)):
                            judge(G)
    model.acc.close()
    return near, nacc, bad


def simple(g, w, h):
    """size 4: no splitter, size 8: four splitters connected on all sides"""
    tr = bal.Trace(g, w, h)
    return len(tr.cells) == {4: 0, 8: 4}[h] and not tr.edge_in and not tr.edge_out and \
        sum((s[0] == 's') + (d[0] == 's') for s, d in tr.wires) == 4 * len(tr.cells)


def shipped(item):
    g, w, h, L = item
    near, nacc, bad = around([g], w, h, L)
    return dict(counts=dict(states=near, transitions=near, traces_validated_against_impl=near), part=('shipped interiors', dict(layouts=1, neighbours=near, accepted=nacc)),
                violations=bad[:3], samples=[show(g, w, h)])


def interiors():
    for L, label, g, w, h in distinct_layouts():
        if h in (4, 8) and all(g[x, y][:2] == ('S', 0) for x in (1, w - 2) for y in range(h)) and all(g[x, y] == ('B', 0, 0) for x in (0, w - 1) for y in range(h)):
            G = {(x - 1, y): g[x, y] for x in range(2, w - 2) for y in range(h)}
            for y in range(h):
                G[0, y] = G[w - 3, y] = ('B', 0, 0)
            yield G, w - 2, h, L


def fits(R, G, cells):
    for (x, y) in cells:
        if not R.cell_ok(G, x, y):
            return False
        for d in range(4):
            m = R.nb[x, y, d]
            if m is not None and not pair_ok(G[x, y], d, G[m]):
                return False
    return True


def mirror(g, w, h):
    f = {0: 0, 1: 3, 2: 2, 3: 1}

    def m(t):
        if t[0] == 'B':
            return ('B', f[t[1]], f[t[2]])
        if t[0] == 'U':
            return ('U', f[t[1]], t[2])
        if t[0] == 'S':
            return ('S', f[t[1]], not t[2])
        return t
    return {(x, h - 1 - y): m(t) for (x, y), t in g.items()}


def kept16():
    """interiors of size 16, put together from interchanges (6 columns of four, a column of splitters, 6 of eight, splitters, 12 of sixteen)"""
    for d in json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'pow2_16.json'))):
        yield {(x, y): tuple(t) for y, row in enumerate(d['cells']) for x, t in enumerate(row)}, d['w'], d['h'], d['L']


BLOCKS16 = [(1, 4 * k, 6, 4) for k in range(4)] + [(8, 8 * k, 6, 8) for k in range(2)] + [(15, 0, 12, 16)]


def size16(item):
    """every interchange block turned upside down (still a balancer) or replaced by straight belts, and all layouts two neighbouring cells away (one share of them)"""
    which, share, shares = item
    g, w, h, L = list(kept16())[which]
    R = rules(w, h, L)
    model = Model(w, h, L)
    bad = []
    n = acc = 0

    def judge(G, must):
        nonlocal n, acc
        n += 1
        c = model.acc.accepts_layout(G)
        if not c and not must:
            return
        acc += c
        why = verdict(G, w, h, R)
        if c and why:
            bad.append(('size 16: accepted a layout that %s\n%s' % (why, show(G, w, h)), repr(G)))
        elif not c and not why:
            bad.append(('size 16: refused a layout that balances\n%s' % show(G, w, h), repr(G)))
    if share == 0:
        for sub in itertools.product((0, 1), repeat=len(BLOCKS16)) if which else [(0,) * 7]:
            G = dict(g)
            for flip, (bx, by, bw, bh) in zip(sub, BLOCKS16):
                if flip:
                    part = mirror({(x, y): g[bx + x, by + y] for x in range(bw) for y in range(bh)}, bw, bh)
                    G.update({(bx + x, by + y): t for (x, y), t in part.items()})
            judge(G, True)
        judge(mirror(g, w, h), True)
        for m in range(1, 1 << len(BLOCKS16)):
            G = dict(g)
            for k, (bx, by, bw, bh) in enumerate(BLOCKS16):
                if m >> k & 1:
                    G.update({(x, y): ('B', 0, 0) for x in range(bx, bx + bw) for y in range(by, by + bh)})
            judge(G, False)
    k = 0
    for (x, y) in sorted(g):
        for d in (0, 3):
            m = R.nb[x, y, d]
            if m is None:
                continue
            k += 1
            if k % shares != share:
                continue
            for a in ALPHABET:
                for b in ALPHABET:
                    G = dict(g)
                    G[x, y], G[m] = a, b
                    if G != g and fits(R, G, ((x, y), m)):
                        judge(G, False)
    model.acc.close()
    return dict(counts=dict(states=n, transitions=n, traces_validated_against_impl=n), part=('size 16', dict(runs=1, layouts=n, accepted=acc)), violations=bad[:3])


def complete4(item):
    """size 4: --all prints exactly the balancing layouts without a pattern of the pruning rules"""
    w, L = item
    h = 4
    R = rules(w, h, L)
    refs = [P.make(n, w, h, L, (1, 0, w - 2, h - 1) if n == 'expand_underground' else None) for n in P.ALL]
    allowed = {(x, y): [('B', 0, 0)] if x in (0, w - 1) else [t for t in ALPHABET if t[0] != 'S' and not any(bal.crossing(t, x, y, w, h))] for x in range(w) for y in range(h)}
    st = {}
    want = set()
    for g in bal.layouts(w, h, L, allowed, stats=st):
        if verdict(g, w, h, R) is None and not P.excluded(g, R, refs):
            want.add(tuple(sorted(g.items())))
    r = tool('belt_balancer_net_free_power_of_2', [w, h, '--underground-length', -1 if L is None else L, '--all']).check()
    got = {tuple(sorted(grid_from_json(json.loads(q))[0].items())) for q in r.lines}
    bad = [('size 4, width %d, underground=%s: %d layout(s) %s, e.g.\n%s' % (w, L, len(s), what, show(dict(min(s, key=repr)), w, h)), repr((item, min(s, key=repr))))
           for what, s in (('without a pruned pattern not printed', want - got), ('printed with a pruned pattern', got - want)) if s]
    return dict(counts=dict(states=st.get('leaves', len(want)), transitions=st.get('transitions', 0), traces_validated_against_impl=len(got)), part=('size 4, complete', dict(runs=1, layouts=len(got))), violations=bad)


def job(j):
    return j[0](j[1])


def run(tier):
    chk = Check('C05', 'model_checking', tier, 'size 4: all splitter-free layouts of the listed widths; every layout printed by the listed runs, and for size 8 everything two neighbouring cells away')
    th = tier == 'thorough'
    jobs = []
    inner = [t for t in ALPHABET if t[0] != 'S']
    for w, L in [(4, 4), (5, 4), (6, 4), (6, 1), (7, 4), (8, 4)] + ([(6, 2), (8, 2), (8, 1), (9, 4)] if th else []):
        for a in inner:
            for b in inner if w > 6 else [None]:
                if b is None or pair_ok(a, 3, b):
                    jobs.append((enum4, (w, L, {(1, 0): a} if b is None else {(1, 0): a, (1, 1): b})))
    for w in (5, 8, 9, 10, 11) if th else (5, 8, 9, 10):
        for L in (1, 2, 4, 6):
            jobs.append((printed, (w, 4, L, ('--all',), 3000, 0)))
    jobs.append((printed, (8, 4, 4, (), None, 2)))
    jobs.insert(0, (printed, (10, 8, 4, (), None, 1)))
    jobs.insert(0, (printed, (11, 8, 4, ('--all',), 40 if th else 6, 3 if th else 1)))
    jobs.insert(0, (printed, (12, 8, 2, ('--all',), 40 if th else 4, 3 if th else 1)))
    if th:
        jobs.insert(0, (printed, (10, 8, 4, ('--all',), None, 36)))
    for it in interiors():
        jobs.insert(0, (shipped, it))
    for w, L in [(w, L) for w in (7, 8) for L in (1, 2, 3, 4, 6, None)] + [(9, L) for L in (1, 2, 4)] * th:
        jobs.insert(0, (complete4, (w, L)))
    for L in (2, None):
        jobs.append((printed, (9, 4, L, ('--all',), 300, 0)))
    for which in range(2 if th else 1):
        for share in range(4):
            jobs.insert(0, (size16, (which, share, 4)))
    pmap(job, jobs, chk)
    return chk.finish(['mc/ref.py and mc/bal.py state the belt-laying rules and the ideal splitter', 'size-8 widths above 10 are stopped after the stated number of layouts'])
