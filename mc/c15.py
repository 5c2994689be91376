"""C15: created networks balance however belts of equal colour are matched; flipping and network files."""
import collections
import itertools
import math

from . import bal
from .balrun import NETS, net_text, parse_net
from .common import Check, REPO, pmap, scratch, tool

import os

P = (1 << 61) - 1


def wirings_of(prod, cons):
    """All ways to feed the consumer nodes (one entry per port) from the producer nodes (one entry per port); some belts of either
    kind may be left over.  Yields ([(producer or None, consumer)], [left over producers]); ports of one node are interchangeable."""
    k = min(len(prod), len(cons))
    cap = collections.Counter(prod)
    need = sorted(collections.Counter(cons).items())
    spare = len(cons) - k                          # consumers fed from outside

    def rec(i, cap, spare, acc):
        if i == len(need):
            yield list(acc), sorted(cap.elements())
            return
        node, n = need[i]
        keys = sorted(q for q in cap if cap[q]) + [None]
        for combo in itertools.combinations_with_replacement(keys, n):
            c = collections.Counter(combo)
            if c[None] > spare or any(q is not None and m > cap[q] for q, m in c.items()):
                continue
            for q, m in c.items():
                if q is not None:
                    cap[q] -= m
            yield from rec(i + 1, cap, spare - c[None], acc + [(q, node) for q in combo])
            for q, m in c.items():
                if q is not None:
                    cap[q] += m
    for pairs, left in rec(0, cap, spare, []):
        if sum(1 for q, _ in pairs if q is not None) == k:
            yield pairs, left


def classes(net):
    prod, cons = collections.defaultdict(list), collections.defaultdict(list)
    for i, (a, b) in enumerate(net):
        for c in a:
            if c is not None:
                cons[c].append(i)
        for c in b:
            if c is not None:
                prod[c].append(i)
    return [(c, prod[c], cons[c]) for c in sorted(set(prod) | set(cons))]


def balance(n_nodes, parts):
    """Shares (input x output) modulo a large prime; None when a part of the network is cut off."""
    outs = collections.Counter()
    wires, ins, sinks = [], [], []
    for pairs, left in parts:
        for q, node in pairs:
            if q is None:
                ins.append(node)
            else:
                outs[q] += 1
                wires.append((q, node))
        for q in left:
            outs[q] += 1
            sinks.append(q)
    A = [[0] * n_nodes for _ in range(n_nodes)]
    for i in range(n_nodes):
        A[i][i] = 1
    inv = {1: 1, 2: pow(2, P - 2, P)}
    for q, node in wires:
        A[node][q] = (A[node][q] - inv[outs[q]]) % P
    B = [[1 if ins[a] == i else 0 for a in range(len(ins))] for i in range(n_nodes)]
    for c in range(n_nodes):
        p = next((r for r in range(c, n_nodes) if A[r][c]), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        B[c], B[p] = B[p], B[c]
        iv = pow(A[c][c], P - 2, P)
        A[c] = [v * iv % P for v in A[c]]
        B[c] = [v * iv % P for v in B[c]]
        for r in range(n_nodes):
            f = A[r][c]
            if r != c and f:
                A[r] = [(u - f * v) % P for u, v in zip(A[r], A[c])]
                B[r] = [(u - f * v) % P for u, v in zip(B[r], B[c])]
    return [[B[q][a] * inv[outs[q]] % P for q in sinks] for a in range(len(ins))]


def fits(net, n):
    i, o = bal.net_ends(net)
    if [v for _, v in i] != [n] or [v for _, v in o] != [n]:
        return 'has inputs %s and outputs %s' % (i, o)
    return None


def create(n, d):
    tool('network', ['create', d + '/n%d' % n, n]).check()
    return parse_net(open(d + '/n%d' % n).read())


def plan(n, limit, d):
    """[(list of choices per colour)] as jobs: full product when small, else each colour varied on its own and pairs of colours' ends"""
    net = create(n, d)
    why = fits(net, n)
    if why:
        return net, why, []
    cl = classes(net)
    ways = [list(itertools.islice(wirings_of(p, c), limit + 1)) for _, p, c in cl]
    if math.prod(len(v) for v in ways) <= limit:
        return net, None, ('all', ways)
    return net, None, ('each', ways)


def created(item):
    n, limit, each, k, parts = item
    bad, states = [], 0
    with scratch() as d:
        net, why, todo = plan(n, limit, d)
    if why:
        return result(1, 1, [('the network created for size %d %s' % (n, why), net_text(net))] if k == 0 else [], 'created')
    mode, ways = todo
    want = pow(n, P - 2, P)

    def choices():
        if mode == 'all':
            yield from itertools.product(*ways)
        else:
            first, last = [v[0] for v in ways], [v[-1] for v in ways]
            yield tuple(first)
            yield tuple(last)
            for base in (first, last):
                for i, v in enumerate(ways):
                    step = max(1, len(v) // each)
                    for c in v[::step][:each]:
                        yield tuple(base[:i] + [c] + base[i + 1:])
    for c in itertools.islice(choices(), k, None, parts):
        m = balance(len(net), c)
        states += 1
        if m is None or len(m) != n or any(len(row) != n or any(v != want for v in row) for row in m):
            bad.append(('the network created for size %d does not balance when belts of equal colour are matched as %s' % (n, [p for p, _ in c]), net_text(net)))
            if len(bad) > 5:
                break
    return result(states, states, bad, 'wirings of created networks' + ('' if mode == 'all' else ' (colours varied one at a time)'))


def result(states, n, bad, part):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=n), part=(part, dict(states=states)), violations=bad[:30])


def flipped(net):
    return [(b, a) for a, b in net]


def same(a, b):
    """equal networks as written: the same nodes with the same inputs and outputs (order of nodes and sides free)"""
    def norm(net):
        return collections.Counter((tuple(sorted(x, key=str)), tuple(sorted(y, key=str))) for x, y in net)
    return norm(a) == norm(b)


def flip(text, d):
    open(d + '/a', 'w').write(text)
    tool('network', ['flip', d + '/a', d + '/b']).check()
    tool('network', ['flip', d + '/b', d + '/c']).check()
    return parse_net(open(d + '/b').read()), parse_net(open(d + '/c').read())


def judge_flip(text, d, bad, what):
    net = parse_net(text)
    b, c = flip(text, d)
    if not same(b, flipped(net)):
        bad.append(('flipping %s gives\n%s' % (what, net_text(b)), text))
    if c != net:
        bad.append(('flipping %s twice gives\n%s' % (what, net_text(c)), text))


def files(item):
    """all network files of two nodes over a few colours, with every placing of comments and blank lines"""
    first, colours = item
    bad, states = [], 0
    with scratch() as d:
        for second in itertools.product(colours, repeat=4):
            text = ' '.join(map(str, first)) + '\n' + ' '.join(map(str, second)) + '\n'
            judge_flip(text, d, bad, 'a file')
            states += 1
    return result(states, 2 * states, bad, 'network files')


def decorated(_):
    bad, states = [], 0
    nodes = ['0 0 1 2', '1  -1\t3 3', '  2 12 4 4', '3 4 -1 100']
    plain = '\n'.join(nodes) + '\n'
    extra = ['', '# comment', '   ', '  # indented 1 2 3 4', '#', '#0 0 1 1']
    with scratch() as d:
        ref = flip(plain, d)
        texts = [plain[:-1], plain + '\n\n', plain.replace('\n', ' \n')]
        for combo in itertools.product([None] + extra, repeat=3):
            for at in ((0, 1, 2), (0, 4, 4), (1, 3, 4)):
                lines = list(nodes)
                for pos, e in sorted(zip(at, combo), key=lambda v: v[0], reverse=True):
                    if e is not None:
                        lines.insert(pos, e)
                texts.append('\n'.join(lines) + '\n')
        for t in texts:
            if flip(t, d) != ref:
                bad.append(('the file is read differently from the one without comments and blank lines\n' + t, t))
            states += 1
        judge_flip(plain, d, bad, 'a file')
    return result(states, 2 * states, bad, 'comments and blank lines')


def shipped(names):
    bad = []
    with scratch() as d:
        for name in names:
            text = open(os.path.join(REPO, 'networks', name)).read()
            judge_flip(text, d, bad, 'networks/' + name)
    return result(len(names), 2 * len(names), bad, 'shipped networks')


def created_flip(sizes):
    """flipped created networks keep the ends; both directions of the file round trip"""
    bad = []
    with scratch() as d:
        for n in sizes:
            net = create(n, d)
            text = open(d + '/n%d' % n).read()
            judge_flip(text, d, bad, 'the created network %d' % n)
            why = fits(net, n) or fits(parse_net(open(d + '/b').read()), n)
            if why:
                bad.append(('the network created for size %d, or its flip, %s' % (n, why), text))
    return result(len(sizes), 3 * len(sizes), bad, 'created and flipped')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C15', 'model_checking', tier, 'all wirings (ways to match belts of equal colour) of the created networks up to the listed size, larger ones with one colour varied at a time; all two-node files over the listed colours; every placing of comments; all shipped networks')
    full = 200000 if c.thorough else 60000
    jobs = []
    for n in range(2, 21 if c.thorough else 13):
        parts = 16 if n < 17 else 64
        jobs += [('created', (n, full, 60 if c.thorough else (12 if n > 10 else 30), k, parts)) for k in range(parts)]
    jobs += [('created', (n, 1, 1, 0, 40)) for n in (13, 14, 15, 16)] if not c.thorough else [('created', (n, 1, 1, 0, 40)) for n in (24, 31, 32, 33)]
    jobs += [('created_flip', range(2 + k, 70, 8)) for k in range(8)]
    names = sorted(os.listdir(os.path.join(REPO, 'networks')))
    jobs += [('shipped', names[k::8]) for k in range(8)]
    cols = [-1, 0, 1, 12] if c.thorough else [-1, 0, 12]
    firsts = list(itertools.product(cols, repeat=4))
    jobs += [('files', (f, cols)) for f in firsts]
    jobs += [('decorated', None)]
    pmap(_run, jobs, c)
    c.sample('size 6: 9 nodes, every way to lead colour 1 into the inner networks and every choice of the fed back output')
    return c.finish(['shares are computed exactly modulo the prime 2^61-1', 'a splitter splits evenly over its connected outputs'])
