"""C04: network-free balancers balance.

Oracle: exact rational steady-state flow on the traced wiring.  Explored: every layout of small grids, every layout printed by
the listed runs, shipped n-to-n balancers and every layout differing from them in one or two neighbouring cells."""
import contextlib
import io
import json
from fractions import Fraction

from . import bal
from . import patterns as P
from .books import distinct_layouts
from .bridge import Acceptor, grid_from_json
from .common import Check, pmap, scratch, tool
from .ref import ALPHABET, E, Rules, VEC, pair_ok, show

from factorio_sat import belt_balancer_net_free as nf

NW = (False, False)
CLOSED = (False, True, False, True)


def rules(w, h, L):
    return Rules(w, h, NW, L, belt_block=CLOSED, ug_block=(True,) * 4)


def find_ends(g, w, h, n, aligned=False):
    """input rows, output rows if they are one run of straight belts each with the rest of the column empty"""
    ins = [y for y in range(h) if g[0, y] == ('B', 0, 0)]
    outs = [y for y in range(h) if g[w - 1, y] == ('B', 0, 0)]
    for x, rows in ((0, ins), (w - 1, outs)):
        if len(rows) != n or rows[-1] - rows[0] != n - 1 or any(g[x, y] != E for y in range(h) if y not in rows):
            return None
    if aligned and ins != outs:
        return None
    return ins, outs


def balances(g, w, h, n):
    """True / False: every input reaches every output with share 1/n.  Also returns what the model needs: 'full' (every splitter
    fully connected), the flow per wire; None where the flow is not determined."""
    tr = bal.Trace(g, w, h)
    if tr.edge_in or tr.edge_out or any(d[0] == 'bad' for _, d in tr.wires):
        return False, None
    # restrict to what the inputs reach
    reach = set()
    todo = [d[1] for s, d in tr.wires if s[0] == 'in' and d[0] == 's']
    while todo:
        i = todo.pop()
        if i in reach:
            continue
        reach.add(i)
        todo += [d[1] for s, d in tr.wires if s[0] == 's' and s[1] == i and d[0] == 's']
    idx = {i: k for k, i in enumerate(sorted(reach))}
    wires = []
    for s, d in tr.wires:
        if s[0] == 's' and s[1] not in reach:
            if d[0] == 'out' or d[1] in reach:
                return False, None          # fed from a loop that never gets items of its own: not an even split
            continue
        wires.append((s if s[0] == 'in' else ('s', idx[s[1]], s[2]), d if d[0] == 'out' else ('s', idx[d[1]], d[2])))
    res = bal.flow(len(reach), wires)
    if res is None:
        return False, None
    M, X, outs = res
    good = len(M) == n and all(len(r) == n and all(v == Fraction(1, n) for v in r) for r in M)
    return good, (tr, wires, X, outs, reach)


def representable(info, w, h, n, ins):
    """must the model accept?  True / None (not promised)"""
    tr, wires, X, outs, reach = info
    if len(reach) != len(tr.cells):
        return None
    den = 1
    while den < n:
        den *= 2
    full = n * den
    order = [s[1][1] % n for s, d in wires if s[0] == 'in']
    fl = []
    for s, d in wires:
        if s[0] == 'in':
            v = [Fraction(int(s[1][1] % n == r)) for r in order]
        else:
            v = [q / len(outs[s[1]]) for q in X[s[1]]]
        fl.append(v)
    # the model counts in units of 1/full or coarser powers of two of it
    import math
    unit = n * (den // math.gcd(den, n))
    for v in fl:
        for q in v:
            if (q * unit).denominator != 1 or q > 1:
                return None
    for i in range(len(reach)):
        inn = [k for k, (s, d) in enumerate(wires) if d[0] == 's' and d[1] == i]
        if len(inn) != 2 or len(outs[i]) != 2:
            return None
        if not any(fl[inn[0]][a] != fl[inn[1]][a] for a, r in enumerate(order) if r != n - 1):
            return None
        if any((fl[inn[0]][a] + fl[inn[1]][a]) * unit % 2 for a in range(n)):
            return None
    return True


def reverse(wires):
    return [(('in',) + d[1:] if d[0] == 'out' else d, ('out',) + s[1:] if s[0] == 'in' else s) for s, d in wires]


def balances_nm(g, w, h, n, m):
    """n inputs, m outputs: every input is spread evenly over the outputs, and every output draws evenly on the inputs"""
    _, info = balances(g, w, h, n)
    if info is None:
        return False, None
    tr, wires, X, outs, reach = info
    back = bal.flow(len(reach), reverse(wires))
    if back is None:
        return False, None
    M = bal.flow(len(reach), wires)[0]
    good = len(M) == n and all(len(r) == m and all(v == Fraction(1, m) for v in r) for r in M) \
        and len(back[0]) == m and all(len(r) == n and all(v == Fraction(1, n) for v in r) for r in back[0])
    return good, (tr, wires, X, outs, reach, back)


def representable_nm(info, n, m):
    """different numbers of inputs and outputs, both powers of two: no idle splitter, no belt over its capacity, flows in whole units"""
    if n & (n - 1) or m & (m - 1):
        return None
    tr, wires, X, outs, reach, (_, BX, bouts) = info
    if len(reach) != len(tr.cells):
        return None
    cap = max(n, m, 2)
    low = min(n, m)
    for side, unit, V, per, names in ((wires, Fraction(cap * low, n), X, outs, 'in'), (reverse(wires), Fraction(cap * low, m), BX, bouts, 'out')):
        k = n if names == 'in' else m
        count = 0
        fl = []
        for s, d in side:
            if s[0] == 'in':
                fl.append([unit if a == count else Fraction(0) for a in range(k)])
                count += 1
            else:
                fl.append([q / len(per[s[1]]) * unit for q in V[s[1]]])
        if any(q.denominator != 1 for v in fl for q in v) or any(sum(v) > cap for v in fl):
            return None
        for i in range(len(reach)):
            inn = [a for a, (s, d) in enumerate(side) if d[0] == 's' and d[1] == i]
            if len(inn) + len(per[i]) < 3:
                return None
            if names == 'in' and len(inn) == len(per[i]) == 2 and fl[inn[0]] == fl[inn[1]]:
                return None
    return True


class Model:
    def __init__(self, w, h, L, n, aligned=False, m=None):
        m = n if m is None else m
        with contextlib.redirect_stderr(io.StringIO()):
            g = nf.create_n_to_m_balancer(w, h, float('inf') if L is None else L, n, m)
        nf.setup_balancer_ends(g, n, m, aligned)
        g.block_belts_through_edges((False, True))
        g.prevent_intersection()
        g.enforce_maximum_underground_length()
        self.acc = Acceptor(g)


def find_ends_nm(g, w, h, n, m, aligned=False):
    rows = {}
    for x, k in ((0, n), (w - 1, m)):
        rows[x] = [y for y in range(h) if g[x, y] == ('B', 0, 0)]
        if len(rows[x]) != k or rows[x][-1] - rows[x][0] != k - 1 or any(g[x, y] != E for y in range(h) if y not in rows[x]):
            return False
    return not aligned or set(rows[0]) <= set(rows[w - 1]) or set(rows[w - 1]) <= set(rows[0])


def enum_nm(item):
    """different numbers of inputs and outputs: all layouts of a small grid with proper ends; with `printed` also what --all prints"""
    w, h, L, n, m, aligned, printed = item
    R = rules(w, h, L)
    st = dict(n=0, good=0, acc=0)
    bad = []
    model = Model(w, h, L, n, aligned, m)
    refs = [P.make(r, w, h, L, (1, 0, w - 2, h - 1) if r == 'expand_underground' else None) for r in P.ALL]
    want, may = set(), set()
    stats = {}
    for so in range(h - n + 1):
        for eo in range(h - m + 1):
            allowed = {}
            for x in range(w):
                for y in range(h):
                    o, k = (so, n) if x == 0 else (eo, m)
                    allowed[x, y] = ([('B', 0, 0)] if o <= y < o + k else [E]) if x in (0, w - 1) else [t for t in ALPHABET if not any(bal.crossing(t, x, y, w, h))]
            for g in bal.layouts(w, h, L, allowed, stats=stats):
                c = model.acc.accepts_layout(g)
                legal = R.legal(g) and find_ends_nm(g, w, h, n, m, aligned)
                good, info = balances_nm(g, w, h, n, m) if legal else (False, None)
                promised = good and representable_nm(info, n, m)
                st['n'] += 1
                st['good'] += good
                st['acc'] += c
                if c and not good:
                    bad.append(('a layout that %s is accepted as a %d-to-%d balancer\n%s' % ('does not balance' if legal else 'is not buildable or has wrong ends', n, m, show(g, w, h)), repr(g)))
                elif promised and not c:
                    bad.append(('a layout that balances %d to %d is refused\n%s' % (n, m, show(g, w, h)), repr(g)))
                if printed and good and not P.excluded(g, R, refs) and not side_by_side(g, w, h):
                    may.add(tuple(sorted(g.items())))
                    if promised:
                        want.add(tuple(sorted(g.items())))
                if len(bad) >= 3:
                    break
    model.acc.close()
    if printed:
        r = tool('belt_balancer_net_free', [w, h, n, m, '--underground-length', -1 if L is None else L, '--all'] + ['--aligned'] * aligned).check()
        got = [tuple(sorted(grid_from_json(json.loads(q))[0].items())) for q in r.lines]
        bad += [('%s: %d layout(s) %s, e.g.\n%s' % (item, len(q), what, show(dict(min(q, key=repr)), w, h)), repr((item, min(q, key=repr))))
                for what, q in (('without a pruned pattern not printed', want - set(got)), ('printed that do not balance or have a pruned pattern', set(got) - may)) if q]
        if len(set(got)) != len(got):
            bad.append(('printed a layout twice (%s)' % (item,), repr(item)))
    return dict(counts=dict(states=st['n'], transitions=stats.get('transitions', 0), traces_validated_against_impl=st['n']),
                part=('different numbers of inputs and outputs', dict(configs=1, layouts=st['n'], balancing=st['good'], accepted=st['acc'], promised=len(want))), violations=bad[:3])


def judge(model, g, w, h, L, n, aligned, stats, bad, R):
    legal = R.legal(g) and find_ends(g, w, h, n, aligned) is not None
    good, info = balances(g, w, h, n) if legal else (False, None)
    c = model.acc.accepts_layout(g)
    stats['n'] += 1
    stats['good'] += good
    if c and not good:
        bad.append(('a layout that %s is accepted as a %d-to-%d balancer\n%s' % ('does not balance' if legal else 'is not buildable or has wrong ends', n, n, show(g, w, h)), repr(g)))
    elif good and not c and representable(info, w, h, n, None):
        bad.append(('a layout that balances %d to %d is refused\n%s' % (n, n, show(g, w, h)), repr(g)))
    elif c:
        stats['acc'] += 1


def enum(item):
    """all layouts of a small grid with proper ends"""
    w, h, L, n, aligned, so = item
    R = rules(w, h, L)
    st = dict(n=0, good=0, acc=0)
    bad = []
    model = Model(w, h, L, n, aligned)
    stats = {}
    for eo in range(h - n + 1):
        allowed = {}
        for x in range(w):
            for y in range(h):
                if x in (0, w - 1):
                    o = so if x == 0 else eo
                    allowed[x, y] = [('B', 0, 0)] if o <= y < o + n else [E]
                else:
                    allowed[x, y] = [t for t in ALPHABET if not any(bal.crossing(t, x, y, w, h))]
        for g in bal.layouts(w, h, L, allowed, skip_empty_ug=False, stats=stats):
            judge(model, g, w, h, L, n, aligned, st, bad, R)
            if len(bad) >= 3:
                break
    model.acc.close()
    return dict(counts=dict(states=st['n'], transitions=stats.get('transitions', 0), traces_validated_against_impl=st['n']),
                part=('all layouts', dict(configs=1, layouts=st['n'], balancing=st['good'], accepted=st['acc'])), violations=bad)


def near(item):
    """a shipped balancer and everything one or two neighbouring cells away from it"""
    g, w, h, L, n, two = item
    R = rules(w, h, L)
    st = dict(n=0, good=0, acc=0)
    bad = []
    model = Model(w, h, L, n)
    judge(model, g, w, h, L, n, False, st, bad, R)

    def fits(G, cells):
        for (x, y) in cells:
            if not R.cell_ok(G, x, y):
                return False
            for d in range(4):
                m = R.nb[x, y, d]
                if m is not None and not pair_ok(G[x, y], d, G[m]):
                    return False
        return True
    for (x, y) in sorted(g):
        for t in ALPHABET:
            if t != g[x, y]:
                G = dict(g)
                G[x, y] = t
                judge(model, G, w, h, L, n, False, st, bad, R)
        for d in ((0, 3) if two else ()):
            m = R.nb[x, y, d]
            if m is None:
                continue
            for a in ALPHABET:
                for b in ALPHABET:
                    if (a, b) == (g[x, y], g[m]):
                        continue
                    G = dict(g)
                    G[x, y], G[m] = a, b
                    if fits(G, [(x, y), m]):
                        judge(model, G, w, h, L, n, False, st, bad, R)
        if len(bad) >= 3:
            break
    model.acc.close()
    return dict(counts=dict(states=st['n'], transitions=st['n'], traces_validated_against_impl=st['n']),
                part=('near shipped balancers', dict(balancers=1, layouts=st['n'], balancing=st['good'], accepted=st['acc'])), violations=bad[:3],
                samples=[show(g, w, h)])


def printed(item):
    w, h, n, L, opts = item
    r = tool('belt_balancer_net_free', [w, h, n, n, '--underground-length', L] + list(opts)).check()
    bad = []
    for line in r.lines:
        g, gw, gh = grid_from_json(json.loads(line))
        R = rules(w, h, L)
        if not R.legal(g) or find_ends(g, w, h, n, '--aligned' in opts) is None:
            bad.append(('printed a layout that is not buildable or has its ends wrong (%s)\n%s' % (item, show(g, w, h)), repr((item, g))))
        elif not balances(g, w, h, n)[0]:
            bad.append(('printed a %d-to-%d balancer that does not balance (%s)\n%s' % (n, n, item, show(g, w, h)), repr((item, g))))
    keys = [tuple(sorted(grid_from_json(json.loads(q))[0].items())) for q in r.lines]
    if len(set(keys)) != len(keys):
        bad.append(('printed a layout twice (%s)' % (item,), repr(item)))
    return dict(counts=dict(states=len(r.lines), transitions=len(r.lines), traces_validated_against_impl=len(r.lines)),
                part=('printed layouts', dict(runs=1, layouts=len(r.lines))), violations=bad[:3])


def complete(item):
    """--all prints the balancing layouts without a pattern of the pruning rules (those the model can represent; nothing else)"""
    w, h, n, L, aligned = item
    R = rules(w, h, L)
    refs = [P.make(r, w, h, L, (1, 0, w - 2, h - 1) if r == 'expand_underground' else None) for r in P.ALL]
    st = {}
    want, may = set(), set()
    for so in range(h - n + 1):
        for eo in range(h - n + 1):
            allowed = {}
            for x in range(w):
                for y in range(h):
                    o = so if x == 0 else eo
                    allowed[x, y] = ([('B', 0, 0)] if o <= y < o + n else [E]) if x in (0, w - 1) else [t for t in ALPHABET if not any(bal.crossing(t, x, y, w, h))]
            for g in bal.layouts(w, h, L, allowed, stats=st):
                if not R.legal(g) or find_ends(g, w, h, n, aligned) is None:
                    continue
                good, info = balances(g, w, h, n)
                if good and not P.excluded(g, R, refs) and not side_by_side(g, w, h):
                    k = tuple(sorted(g.items()))
                    may.add(k)
                    if representable(info, w, h, n, None):
                        want.add(k)
    r = tool('belt_balancer_net_free', [w, h, n, n, '--underground-length', -1 if L is None else L, '--all'] + ['--aligned'] * aligned).check()
    got = {tuple(sorted(grid_from_json(json.loads(q))[0].items())) for q in r.lines}
    bad = [('%s: %d layout(s) %s, e.g.\n%s' % (item, len(s), what, show(dict(min(s, key=repr)), w, h)), repr((item, min(s, key=repr))))
           for what, s in (('without a pruned pattern not printed', want - got), ('printed that do not balance or have a pruned pattern', got - may)) if s]
    return dict(counts=dict(states=len(may), transitions=st.get('transitions', 0), traces_validated_against_impl=len(got)), part=('complete', dict(runs=1, layouts=len(got), promised=len(want))), violations=bad)


def side_by_side(g, w, h):
    """two straight belts side by side in the second or last but one column"""
    return any(g[x, y] == g[x, y + 1] == ('B', 0, 0) for x in (1, max(w - 2, 1)) for y in range(h - 1))


def partial(item):
    """a shipped balancer given as a partial solution is kept"""
    g, w, h, L, n = item
    from .c02 import fix_json
    with scratch() as d:
        open(d + '/p', 'w').write(fix_json(g, w, h))
        r = tool('belt_balancer_net_free', [w, h, n, n, '--underground-length', L, '--partial', d + '/p']).check()
    bad = []
    for line in r.lines:
        if grid_from_json(json.loads(line))[0] != g:
            bad.append(('the given partial layout is not kept\n%s' % show(g, w, h), repr(g)))
    return dict(counts=dict(states=1, transitions=1, traces_validated_against_impl=1), part=('partials', dict(runs=1, kept=len(r.lines))), violations=bad)


def job(j):
    return j[0](j[1])


def run(tier):
    chk = Check('C04', 'model_checking', tier, 'all layouts of the listed grids, all layouts one or two neighbouring cells away from shipped n-to-n balancers, every layout printed by the listed runs')
    th = tier == 'thorough'
    jobs = []
    for w, h, L, n, al in [(3, 2, 4, 2, False), (4, 2, 4, 2, False), (5, 2, 4, 2, False), (6, 2, 1, 2, False), (3, 3, 4, 2, True), (4, 3, 4, 2, False), (4, 3, 4, 2, True), (5, 3, 4, 2, False),
                           (4, 3, 4, 3, False), (4, 4, 4, 4, False), (5, 3, 4, 3, False),
                           (6, 3, 4, 2, False), (5, 4, 4, 4, False), (4, 4, 1, 2, False), (5, 4, 4, 3, False), (4, 5, 4, 4, True), (6, 3, 2, 3, False), (6, 4, 4, 4, False), (5, 5, 4, 5, False), (4, 6, 4, 6, False)] \
            + ([(7, 3, 4, 2, False), (6, 4, 4, 3, False), (5, 5, 4, 4, True), (7, 3, 4, 3, False), (7, 4, 4, 4, False)] if th else []):
        for so in range(h - n + 1):
            jobs.append((enum, (w, h, L, n, al, so)))
    for L, label, g, w, h in distinct_layouts():
        ends = [y for y in range(h) if g[0, y] == ('B', 0, 0)]
        n = len(ends)
        if n < 2 or find_ends(g, w, h, n) is None:
            continue
        two = th or w * h <= 48
        if th or w * h <= 104:
            jobs.append((near, (g, w, h, L, n, two)))
            jobs.append((partial, (g, w, h, L, n)))
    for it in [(3, 2, 2, 4, ('--all',)), (4, 2, 2, 4, ('--all',)), (4, 3, 2, 4, ('--all',)), (5, 3, 2, 4, ('--all',)), (5, 4, 2, 4, ('--all',)), (5, 3, 2, 1, ('--all', '--aligned')), (5, 4, 2, 4, ('--all', '--aligned')),
               (6, 4, 3, 4, ()), (7, 3, 3, 4, ()), (7, 4, 3, 4, ('--aligned',)), (6, 4, 4, 4, ()), (5, 4, 4, 4, ('--all',)), (5, 5, 4, 4, ('--all', '--aligned')), (7, 4, 4, 4, ()), (6, 3, 3, 4, ('--all',)), (6, 4, 2, 4, ('--all',)), (7, 3, 2, 4, ('--all',)), (7, 4, 4, 4, ('--all',)), (8, 4, 4, 4, ()), (6, 8, 3, 4, ()), (8, 5, 3, 4, ()), (8, 6, 4, 4, ())] \
            + ([(8, 6, 6, 4, ()), (8, 5, 5, 4, ()), (8, 4, 2, 4, ('--all',)), (9, 3, 3, 4, ('--all',)), (8, 4, 4, 4, ('--all',))] if th else []):
        jobs.append((printed, it))
    for it in [(w, 2, 2, L, False) for w in (3, 4, 5, 6, 7) for L in (1, 2, 4)] + [(w, 3, 2, L, al) for w in (3, 4, 5) for L in (1, 2, 4, None) for al in (False, True)] \
            + [(4, 3, 3, 4, False), (5, 3, 3, 4, False), (5, 4, 4, 4, False), (6, 3, 2, 4, False), (4, 4, 2, 4, True), (6, 3, 3, 4, False)] + [(6, 4, 4, 4, False), (5, 4, 2, 4, False), (5, 4, 3, 4, True), (7, 3, 2, 4, False)] * th:
        jobs.insert(0, (complete, it))
    for n, m in ((1, 2), (2, 1)):
        for it in [(w, 2, L) for w in (3, 4, 5, 6) for L in (1, 4)] + [(3, 3, 4), (4, 3, 4), (4, 4, 1), (5, 3, 4), (5, 3, 1), (5, 3, None)] + [(5, 4, 4), (6, 3, 4)] * th:
            for al in (False, True):
                jobs.append((enum_nm, it + (n, m, al, True)))
    for it in [(4, 3, 4, 1, 3), (5, 3, 4, 3, 1), (5, 3, 4, 2, 3), (5, 3, 4, 3, 2), (4, 4, 4, 1, 4), (5, 4, 4, 3, 4), (5, 4, 4, 4, 3)]:
        jobs.append((enum_nm, it + (False, True)))
    for it in [(5, 4, 4, 2, 4), (5, 4, 4, 4, 2), (6, 4, 4, 4, 2), (5, 4, 4, 4, 1), (5, 4, 4, 1, 4)] + [(6, 4, 4, 2, 4), (6, 4, 4, 1, 4), (6, 4, 4, 4, 1), (6, 4, 4, 3, 4)] * th:
        for al in (False, True):
            jobs.insert(0, (enum_nm, it + (al, True)))
    pmap(job, jobs, chk)
    return chk.finish(['mc/ref.py and mc/bal.py state the belt-laying rules and the ideal splitter (even split over its connected outputs)'])
