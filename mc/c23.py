"""C23: rewriting a network (tidying, simplifying, renumbering its colours) keeps what the network does.
Explored: every network of one to three splitters in which every belt has its own colour; created and shipped networks."""
import collections
import itertools
import os

from . import bal
from .balrun import parse_net
from .common import Check, REPO, pmap

from factorio_sat import network as N

PORTS = {n: [(i, k) for i in range(n) for k in range(2)] for n in range(5)}


def wired(n, first=()):
    """every network of n splitters: each output port is unused, leaves, or leads to an input port; the other input ports are unused or inputs"""
    ports = PORTS[n]

    def rec(k, used, acc):
        if k == len(ports):
            free = [p for p in ports if p not in used]
            for ext in itertools.product((0, 1), repeat=len(free)):
                yield build(n, acc, [p for p, e in zip(free, ext) if e])
            return
        opts = [None, 'out'] + [p for p in ports if p not in used]
        for o in ([opts[first[k]]] if k < len(first) and first[k] < len(opts) else opts if k >= len(first) else []):
            yield from rec(k + 1, used | {o} if isinstance(o, tuple) else used, acc + [o])
    yield from rec(0, frozenset(), [])


def build(n, outs, ext):
    ins = dict.fromkeys(PORTS[n])
    oc = []
    c = 0
    for p in ext:
        ins[p] = c
        c += 1
    for o in outs:
        if o is None:
            oc.append(None)
            continue
        oc.append(c)
        if o != 'out':
            ins[o] = c
        c += 1
    return [((ins[i, 0], ins[i, 1]), (oc[2 * i], oc[2 * i + 1])) for i in range(n)]


def colours(net):
    return {c for a, b in net for c in tuple(a) + tuple(b)} - {None}


def ends(net):
    """colours of the inputs, inside, of the outputs"""
    i = {c for a, b in net for c in a} - {None}
    o = {c for a, b in net for c in b} - {None}
    return i - o, i & o, o - i


def working(net):
    """without splitters that are never fed or can pass nothing on, and the belts from and to them"""
    net = [(tuple(a), tuple(b)) for a, b in net]
    while True:
        for k, (a, b) in enumerate(net):
            if not colours([(a, ())]) or not colours([((), b)]):
                gone = set(a + b) - {None}
                net = [(tuple(None if x in gone else x for x in p), tuple(None if x in gone else x for x in q)) for j, (p, q) in enumerate(net) if j != k]
                break
        else:
            return net


def shares(net):
    prod = {c: i for i, (a, b) in enumerate(net) for c in b if c is not None}
    cons = {c: i for i, (a, b) in enumerate(net) for c in a if c is not None}
    wires = [(('s', prod[c], 0) if c in prod else ('in', c, 0), ('s', cons[c], 0) if c in cons else ('out', c, 0)) for c in sorted(colours(net))]
    r = bal.flow(len(net), wires)
    return None if r is None else r[0]


def canon(M):
    return min(((len(M), tuple(sorted(zip(*rows)))) for rows in itertools.permutations(M)), default=(0, ())) if M and M[0] else (0, ())


def through(net):
    """joining splitters one behind the other and leaving out those that pass one belt on, an input becomes an output"""
    while True:
        i, m, o = ends(net)
        for k, (a, b) in enumerate(net):
            if len(colours([(a, ())])) == len(colours([((), b)])) == 1:
                x, y = colours([(a, ())]).pop(), colours([((), b)]).pop()
                if x in i and y in o:
                    return True
                net = [tuple(tuple(y if c == x else c for c in side) for side in node) for j, node in enumerate(net) if j != k]
                break
            j = next((j for j, (p, q) in enumerate(net) if j != k and colours([((), b)]) == colours([(p, ())]) and len(colours([((), b)])) == 2), None)
            if j is not None:
                net = [(a, net[j][1]) if q == k else node for q, node in enumerate(net) if q != j]
                break
        else:
            return False


def reducible(net):
    for a, b in net:
        if not colours([(a, ())]) or not colours([((), b)]):
            return 'a splitter without inputs or without outputs'
        if None in a and None in b:
            return 'a splitter with one input and one output'
    for x, y in itertools.permutations(net, 2):
        if len(colours([((), x[1])])) == 2 and set(x[1]) == set(y[0]):
            return 'two splitters one behind the other'
    return None


def text(net):
    return '\n'.join(' '.join('-1' if c is None else str(c) for c in tuple(a) + tuple(b)) for a, b in net)


def renamed(net, res, ordered):
    """res is net with other colours, one for one (and, unless ordered, with nodes and sides in another order)"""
    if len(net) != len(res):
        return False

    def fit(k, left, m):
        if k == len(net):
            return len(set(m.values())) == len(m)
        (a, b) = net[k]
        for j in ([left[0]] if ordered else left):
            c, d = res[j]
            for p in ((tuple(c),) if ordered else sorted({tuple(c), tuple(c)[::-1]}, key=str)):
                for q in ((tuple(d),) if ordered else sorted({tuple(d), tuple(d)[::-1]}, key=str)):
                    mm = dict(m)
                    if all((x is None) == (y is None) and (x is None or mm.setdefault(x, y) == y) for x, y in zip(tuple(a) + tuple(b), p + q)) \
                            and fit(k + 1, [i for i in left if i != j], mm):
                        return True
        return False
    return fit(0, list(range(len(res))), {})


def cost(net, lab):
    _, mid, _ = ends(net)
    return sum(bin(lab[s[0]] ^ lab[s[1]]).count('1') for node in net for s in node if None not in s and (s[0] in mid or s[1] in mid))


def judge_simplify(net, bad):
    res = []
    base = None
    if not through(working(net)):
        base = shares(working(net))
    for narrow in (False, True):
        what = 'simplifying%s\n%s\n' % (' (bottlenecks allowed)' if narrow else '', text(net))
        before = [(tuple(a), tuple(b)) for a, b in net]
        try:
            s = N.simplify(net, narrow)
        except Exception as e:
            bad.append((what + 'fails: %r' % e, text(net)))
            continue
        if net != before:
            bad.append((what + 'changes the network given', text(net)))
        if base is None:
            continue
        s = [(tuple(a), tuple(b)) for a, b in s]
        why = reducible(s)
        if why:
            bad.append((what + 'leaves %s:\n%s' % (why, text(s)), text(net)))
        elif len(s) > len(working(net)):
            bad.append((what + 'adds splitters:\n' + text(s), text(net)))
        else:
            got = shares(s)
            if got is None or canon(got) != canon(base):
                bad.append((what + 'changes the shares its outputs get:\n' + text(s), text(net)))
        res.append(s)
    return base is not None


def judge_tidy(net, bad):
    for name, f, ordered in (('fix_colours', N.fix_colours, True), ('tidy_network', N.tidy_network, False)):
        res = f(list(net))
        why = None
        if not renamed(net, res, ordered):
            why = 'is another network'
        else:
            i, m, o = ends(res)
            if sorted(i) + sorted(m) + sorted(o) != list(range(len(colours(res)))):
                why = 'does not number inputs, inner belts and outputs in this order'
        if why:
            bad.append(('%s of\n%s\n%s:\n%s' % (name, text(net), why, text(res)), text(net)))
    i, m, o = ends(net)
    if N.get_exterior_colours(net) != (i, o) or N.calculate_network_size(net) != (len(i), len(o)) or N.calculate_total_colours(net) != len(colours(net)):
        bad.append(('the colours of\n%s\nare counted as %s %s %s' % (text(net), N.get_exterior_colours(net), N.calculate_network_size(net), N.calculate_total_colours(net)), text(net)))


def judge_optimise(net, bad, scale=1):
    net = [(tuple(c if c is None else c * scale for c in a), tuple(c if c is None else c * scale for c in b)) for a, b in net]
    cols = sorted(colours(net))
    now = cost(net, {c: c for c in cols})
    best = min([now] + [cost(net, dict(zip(cols, p))) for p in itertools.permutations(range(len(cols)))])
    try:
        res = N.optimise_colours(net)
        if N.calculate_cost(net) != now:
            bad.append(('the cost of\n%s\nis %d, not %d' % (text(net), now, N.calculate_cost(net)), text(net)))
    except Exception as e:
        bad.append(('optimising the colours of\n%s\nfails: %r' % (text(net), e), text(net)))
        return
    got = colours(res)
    why = None
    if not renamed(net, res, True):
        why = 'gives another network'
    elif res != net and got and max(got) >= len(cols):
        why = 'uses more colours than needed'
    elif cost(res, {c: c for c in got}) != best:
        why = 'costs %d, not %d' % (cost(res, {c: c for c in got}), best)
    if why:
        bad.append(('optimising the colours of\n%s\n%s:\n%s' % (text(net), why, text(res)), text(net)))


def result(n, m, bad, part, **more):
    return dict(counts=dict(states=n, transitions=m, traces_validated_against_impl=m), part=(part, dict(networks=n, **more)), violations=bad[:10])


def simplified(item):
    n, first, step, off = item
    bad, k, same = [], 0, 0
    for j, net in enumerate(wired(n, first)):
        if j % step != off or len(bad) > 5:
            continue
        k += 1
        same += judge_simplify(net, bad)
    return result(k, 2 * k, bad, 'simplify, %d splitters' % n, compared=same)


def tidied(item):
    n, first, step, off = item
    bad, k = [], 0
    for j, net in enumerate(wired(n, first)):
        if j % step == off and len(bad) <= 5:
            k += 1
            judge_tidy(net, bad)
    return result(k, 2 * k, bad, 'tidy, %d splitters' % n)


def optimised(item):
    n, first, step, off, most, scales = item
    bad, k, m = [], 0, 0
    for j, net in enumerate(wired(n, first)):
        if j % step != off or len(colours(net)) > most or len(bad) > 5:
            continue
        k += 1
        for s in scales:
            judge_optimise(net, bad, s)
            m += 1
    return result(k, m, bad, 'optimise, %d splitters' % n)


def merged(_):
    """networks of four splitters around the places where bottlenecks are joined: two splitters with one output fed by the same two, both ways round"""
    bad, n = [], 0
    for a_in in itertools.product((0, 1), repeat=2):
        for extra in range(4):
            for swap in itertools.product((False, True), repeat=4):
                # p, q feed a and b; a and b have one output each
                p_out, q_out = (10, 11), (12, 13)
                a, b = ((10, 12), (11, 13))
                net = [(((0, 1) if a_in[0] else (0, None)), p_out), (((2, 3) if a_in[1] else (2, None)), q_out), (a, (20, None)), (b, (21, None))]
                if extra == 1:
                    net[2] = (a, (20, 22))
                elif extra == 2:
                    net.append(((20, 21), (30, 31)))
                elif extra == 3:
                    net[0] = ((0, 21), p_out)
                net = [((i[::-1] if swap[0] else i), (o[::-1] if swap[1] else o)) for i, o in net]
                if swap[2]:
                    net = net[::-1]
                if swap[3]:
                    net = [(o, i) for i, o in net]
                judge_simplify(net, bad)
                judge_tidy(net, bad)
                n += 1
    return result(n, 2 * n, bad, 'bottlenecks, four and five splitters')


def shipped(names):
    bad, n = [], 0
    for name in names:
        net = parse_net(open(os.path.join(REPO, 'networks', name)).read())
        n += 1
        i, m, o = ends(net)
        seen = collections.Counter(c for a, b in net for c in a if c is not None), collections.Counter(c for a, b in net for c in b if c is not None)
        if all(v == 1 for s in seen for v in s.values()) and len(net) <= 12:
            judge_simplify(net, bad)
            judge_tidy(net, bad)
        else:
            res = N.fix_colours(net)
            i, m, o = ends(res)
            if not renamed(net, res, True) or sorted(i) + sorted(m) + sorted(o) != list(range(len(colours(net)))):
                bad.append(('fix_colours of networks/%s gives\n%s' % (name, text(res)), name))
    return result(n, n, bad, 'shipped networks')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C23', 'model_checking', tier, 'all networks of up to two splitters, all (simplify) or a fixed share (thorough: all) of the networks of three, in which every belt has its own colour; bottleneck shapes of four and five splitters')
    t = c.thorough
    jobs = [('merged', None)]
    for n in (1, 2):
        jobs += [('simplified', (n, (), 1, 0)), ('tidied', (n, (), 1, 0)), ('optimised', (n, (), 1, 0, 7 if t else 6, (1, 3, 50)))]
    for a in range(8):
        for b in range(8):
            jobs.append(('simplified', (3, (a, b), 1, 0)))
            jobs.append(('tidied', (3, (a, b), 1 if t else 9, 0)))
            jobs.append(('optimised', (3, (a, b), 5 if t else 60, 0, 6, (1,))))
    names = sorted(os.listdir(os.path.join(REPO, 'networks')))
    jobs += [('shipped', names[k::4]) for k in range(4)]
    pmap(_run, jobs, c)
    return c.finish(['a splitter splits evenly over its connected outputs, belts have no limit', 'an input that leads straight to an output is dropped by simplify and not compared'])
