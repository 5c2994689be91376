"""C02: printed balancers are wired as the network; a layout is accepted iff it realises the network; partials are kept."""
import itertools
import json
import os
import re

from . import bal
from .balrun import NETS, generate, net_text, options, parse_net, shipped
from .books import distinct_layouts, turn
from .bridge import to_json_tile
from .common import Check, REPO, pmap
from .ref import ALPHABET, E, Rules, show

NW = (False, False)


def ends_ok(g, w, h, net, mode, ue):
    i, o = bal.net_ends(net)
    tr = bal.Trace(g, w, h)
    for allowed, must, forbid in bal.end_configs(w, h, i[0][1], o[0][1], mode, ue):
        if all(t in allowed[c] for c, t in g.items()) and bal.realises(tr, net, must, forbid):
            return True
    return False


def sound(g, w, h, L, net, mode, ue):
    """None, or why the layout is no answer"""
    if not Rules(w, h, NW, L, ug_block=(True,) * 4).legal(g):
        return 'is not buildable'
    if not bal.realises(bal.Trace(g, w, h), net):
        return 'is not wired as the network'
    if not ends_ok(g, w, h, net, mode, ue):
        return 'has its inputs or outputs in the wrong place'
    return None


def fix_json(g, w, h):
    """every cell pinned: empty cells as filler"""
    return json.dumps([[{'tile': {'type': 'filler'} if g[x, y] == E else to_json_tile(g[x, y])} for x in range(w)] for y in range(h)])


def perturb(net, full):
    """the network itself, and networks that differ in where two connections go"""
    yield 'own', net
    ports = [(i, s, k) for i in range(len(net)) for s in (0, 1) for k in (0, 1)]
    n = 0
    for a, b in itertools.combinations(ports, 2):
        if a[1] != b[1] or a[0] == b[0]:
            continue
        ca, cb = net[a[0]][a[1]][a[2]], net[b[0]][b[1]][b[2]]
        if ca == cb:
            continue
        m = [[list(q) for q in node] for node in net]
        m[a[0]][a[1]][a[2]], m[b[0]][b[1]][b[2]] = cb, ca
        m = [tuple(tuple(q) for q in node) for node in m]
        i, o = bal.net_ends(m)
        if len(i) != 1 or len(o) != 1 or any(sum(c is None for c in q[0] + q[1]) > 1 for q in m):
            continue
        n += 1
        if full or n % 7 == 1:
            yield 'swap %s %s' % (a, b), m
    yield from mixed(net, full)
    ren = {c: c for node in net for s in node for c in s}
    big = max(c for c in ren if c is not None)
    ren = {c: (None if c is None else (big - c) * 2 + 1) for c in ren}
    yield 'renamed', [tuple(tuple(ren[c] for c in s) for s in node) for node in reversed(net)]


def mixed(net, full):
    """two nodes with their inputs (or outputs) exchanged, the four wires numbered so that the bits of one pair are those of the other rearranged"""
    for side in (0, 1):
        found = 0
        for i, j in itertools.combinations(range(len(net)), 2):
            four = net[i][side] + net[j][side]
            if None in four or len(set(four)) < 4:
                continue
            m = [list(node) for node in net]
            m[i][side], m[j][side] = m[j][side], m[i][side]
            ends = bal.net_ends([tuple(node) for node in m])
            if len(ends[0]) != 1 or len(ends[1]) != 1:
                continue
            for four_new in ((0, 15, 8, 7), (16, 15, 0, 31), (1, 2, 3, 0)) if full else ((0, 15, 8, 7),):
                rest = iter(c for c in range(64) if c not in four_new)
                ren = {None: None, **dict(zip(four, four_new))}
                for node in net:
                    for c in node[0] + node[1]:
                        if c not in ren:
                            ren[c] = next(rest)
                yield 'nodes %d and %d exchange side %d' % (i, j, side), [tuple(tuple(ren[c] for c in q) for q in node) for node in m]
            found += 1
            if not full or found == 3:
                break


def matrix(item):
    g, w, h, L, net, mode, full = item
    bad = []
    n = acc = und = 0
    for what, m in (perturb(net, full) if full is not None else [('shipped', net)]):
        try:
            want = ends_ok(g, w, h, m, mode, False)
        except TimeoutError:
            und += 1
            continue
        got = generate(net_text(m), w, h, options(L, mode, False, all_=False), partial=fix_json(g, w, h))
        n += 1
        acc += want
        if bool(got) != want:
            bad.append(('a layout that %s the network (%s, ends %s) is %s\n%s\n%s' % (
                'realises' if want else 'does not realise', what, mode, 'accepted' if got else 'refused', net_text(m), show(g, w, h)), repr((item[:4], m))))
        elif got and got[0][2] != g:
            bad.append(('the given layout is not kept:\n%s\nprinted\n%s' % (show(g, w, h), show(got[0][2], w, h)), repr((item[:4], m))))
        if len(bad) >= 3:
            break
    return dict(counts=dict(states=n, transitions=n, traces_validated_against_impl=n),
                part=('balancers x networks', dict(layouts=1, decided=n, accepted=acc, undecided=und)), violations=bad)


def partial(item):
    """every single placed tile: what is printed is exactly the solutions that contain it"""
    name, w, h, L, mode, ue, cells = item
    text = NETS[name]
    ref = set(bal.all_layouts(w, h, L, parse_net(text), mode, ue))
    bad = []
    n = 0
    for c in cells:
        for t in ALPHABET[1:] + [('X',)]:
            rows = [[{'tile': {'type': 'empty'}} for _ in range(w)] for _ in range(h)]
            rows[c[1]][c[0]] = {'tile': to_json_tile(t)}
            got = {k for k, _, _ in generate(text, w, h, options(L, mode, ue), partial=json.dumps(rows))}
            tt = E if t == ('X',) else t
            want = {k for k in ref if k[c[1] * w + c[0]] == tt}
            n += 1
            if got != want:
                k = sorted(got ^ want)[0]
                bad.append(('partial with %s at %s, network %s %dx%d ends %s: %d layouts printed, %d exist; e.g.\n%s' % (
                    t, c, name, w, h, mode, len(got), len(want), show({(x, y): k[y * w + x] for x in range(w) for y in range(h)}, w, h)), repr((item, c, t))))
    return dict(counts=dict(states=n, transitions=n * len(ref), traces_validated_against_impl=n), part=('partials', dict(partials=n)), violations=bad[:5])


FLAGS = [(), ('--fast',), ('--edge-splitters',), ('--edge-belts',), ('--glue-splitters', '--expand-underground'), ('--prevent-mergeable-underground', '--prevent-bad-patterns'),
         ('--break-symmetry',), ('--fast', '--break-symmetry')]


def printed(item):
    """every layout printed in larger runs with pruning options"""
    name, w, h, L, mode, ue, flags, all_ = item
    text = NETS.get(name) or shipped(name)
    net = parse_net(text)
    if all_:
        flags = flags
    got = generate(text, w, h, options(L, mode, ue, all_) + list(flags))
    bad = []
    for _, _, g in got:
        why = sound(g, w, h, L, net, mode, ue)
        if why:
            bad.append(('network %s %dx%d underground=%s ends=%s %s: the printed layout %s\n%s' % (name, w, h, L, mode, ' '.join(flags), why, show(g, w, h)), repr((item, g))))
            if len(bad) >= 3:
                break
    return dict(counts=dict(states=len(got), transitions=len(got), traces_validated_against_impl=len(got)),
                part=('printed layouts', dict(runs=1, layouts=len(got))), violations=bad, samples=[show(g, w, h) for _, _, g in got[:1]])


def run(tier):
    chk = Check('C02', 'model_checking', tier, 'all listed layouts x all networks differing in two connections (accepted iff realised); every single-tile partial at every cell; every layout printed by the listed runs')
    th = tier == 'thorough'
    jobs = []
    n = 0
    for k, (L, label, g, w, h) in enumerate(distinct_layouts()):
        if w * h > (90 if th else 56):
            continue
        for mode, (m, q) in (('straight', (0, 0)), ('custom', (0, 1)), ('custom', (1, 2)), ('custom', (1, 3)), ('custom', (0, 0))):
            n += 1
            if mode == 'custom' and not th and n % 3:
                continue
            gg, ww, hh = turn(g, w, h, m, q)
            tr = bal.Trace(gg, ww, hh)
            net = bal.network_of(tr)
            if any(sum(c is None for c in a + b) > 1 for a, b in net):
                continue
            jobs.append((matrix, (gg, ww, hh, L, net, mode, (th and w * h <= 42) or w * h <= 12)))
    for L, label, g, w, h in distinct_layouts():
        f = 'x'.join(re.findall(r'\d+', label)[:2])
        if w * h <= (200 if th else 70) and os.path.exists(os.path.join(REPO, 'networks', f)):
            jobs.append((matrix, (g, w, h, L, parse_net(shipped(f)), 'straight', None)))
    for name, w, h, L, mode, ue in (('1x2', 4, 3, 4, 'straight', True), ('2x2', 4, 3, 4, 'straight', True), ('2x1', 3, 3, 4, '90', True), ('bottle', 4, 4, 4, '180', False),
                                    ('2x2b', 3, 3, 4, 'custom', False), ('2x2', 6, 3, 4, 'straight', False), ('1x2', 3, 5, 4, 'straight', True)):
        for x in range(w):
            jobs.append((partial, (name, w, h, L, mode, ue, [(x, y) for y in range(h)])))
    for flags in FLAGS:
        big = [('3x3', 6, 4, 4, 'straight', False), ('4x4', 6, 5, 4, 'straight', False), ('2x4', 5, 4, 4, 'straight', False), ('4x2', 5, 4, 4, 'straight', False), ('3x2', 6, 4, 4, 'straight', False),
               ('3x4', 7, 4, 4, 'straight', False), ('1x3', 6, 5, 4, 'straight', False), ('2x3', 7, 4, 4, 'aligned', False), ('4x4', 7, 4, 4, 'straight', True), ('4x4', 6, 6, 4, '90', False),
               ('3x3', 6, 7, 4, '180', False), ('4x4', 6, 9, 4, '180', False), ('1x4', 4, 4, 4, 'custom', False), ('2x3', 5, 5, 4, 'custom', False)]
        if th:
            big += [('5x5', 10, 6, 4, 'straight', False), ('6x6', 9, 7, 4, 'straight', False), ('8x8', 9, 8, 6, 'straight', False), ('4x8', 8, 8, 4, 'straight', False), ('3x5', 9, 6, 4, 'aligned', False)]
        for name, w, h, L, mode, ue in big:
            if mode == '90' and '--break-symmetry' in flags:
                continue
            if th or w * h <= 30 or '--fast' in flags or not flags:
                jobs.append((printed, (name, w, h, L, mode, ue, flags, False)))
        for name, w, h, L, mode, ue in (('2x2', 5, 3, 4, 'straight', True), ('1x2', 5, 4, 4, 'straight', False), ('loop', 5, 3, 4, 'straight', True), ('2x2b', 6, 3, 4, 'straight', False)):
            jobs.append((printed, (name, w, h, L, mode, ue, flags, True)))
    pmap(_job, jobs, chk)
    return chk.finish(['mc/ref.py and mc/bal.py state the belt-laying and wiring rules'])


def _job(j):
    return j[0](j[1])
