"""C03: the balancer generator prints exactly the layouts that realise the network, each once.

The whole space of layouts of a grid is enumerated explicitly (reference) and compared with what --all prints."""
import collections
import itertools

from . import bal
from .balrun import NETS, generate, options, parse_net, shipped
from .common import Check, pmap
from .ref import show


def compare(item):
    name, w, h, L, mode, ue = item
    text = NETS.get(name) or shipped(name)
    st = {}
    ref = set(bal.all_layouts(w, h, L, parse_net(text), mode, ue, st))
    got = generate(text, w, h, options(L, mode, ue))
    bad = []
    keys = set(k for k, _, _ in got)
    desc = 'network %s %dx%d underground=%s ends=%s%s' % (name, w, h, L, mode, ' use-ends' if ue else '')

    def pic(k):
        return show({(x, y): k[y * w + x] for x in range(w) for y in range(h)}, w, h)
    for k in sorted(ref - keys)[:3]:
        bad.append(('%s: %d solution(s) missing, e.g.\n%s' % (desc, len(ref - keys), pic(k)), repr((item, k))))
    for k in sorted(keys - ref)[:3]:
        bad.append(('%s: %d layout(s) printed that do not realise the network, e.g.\n%s' % (desc, len(keys - ref), pic(k)), repr((item, k))))
    dup = [k for k, n in collections.Counter(c for _, c, _ in got).items() if n > 1]
    for k in dup[:3]:
        bad.append(('%s: printed %d layouts more than once, e.g.\n%s' % (desc, len(dup), pic(k[0])), repr((item, k))))
    # without --all: one of them, or nothing if there is none
    one = generate(text, w, h, options(L, mode, ue, all_=False))
    if len(one) != (1 if ref else 0) or any(k not in ref for k, _, _ in one):
        bad.append(('%s: without --all printed %d layout(s), %d exist' % (desc, len(one), len(ref)), repr(item)))
    return dict(counts=dict(states=st.get('leaves', 0), transitions=st.get('transitions', 0), traces_validated_against_impl=len(got) + 1),
                part=('%s%s' % (mode, ' use-ends' if ue else ''), dict(configs=1, solutions=len(ref))), violations=bad,
                samples=[desc + '\n' + pic(k) for k in sorted(ref)[:1]])


QUICK = [
    ('2x2', 3, 2, 4, 'straight', False), ('2x2', 4, 2, 4, 'straight', False), ('2x2', 5, 3, 4, 'straight', False), ('2x2', 6, 3, 4, 'straight', False),
    ('2x2', 6, 3, 1, 'straight', False), ('2x2', 5, 4, 4, 'straight', False), ('2x2', 5, 3, 4, 'straight', True), ('2x2', 5, 3, 1, 'straight', True),
    ('2x2gap', 4, 3, 4, 'straight', True), ('2x2rev', 4, 3, 4, 'straight', False), ('2x2', 4, 5, 2, 'straight', False), ('2x2', 3, 5, 4, 'straight', True),
    ('1x2', 5, 3, 4, 'straight', False), ('1x2', 5, 4, 2, 'straight', False), ('1x2', 4, 4, 4, 'straight', True), ('1x2flip', 4, 3, 4, 'straight', True),
    ('2x1', 5, 3, 4, 'straight', True), ('2x1flip', 5, 4, 4, 'straight', False), ('1x2', 7, 3, 1, 'straight', False), ('1x2', 7, 3, 4, 'straight', False), ('1x2', 7, 3, 2, 'straight', False),
    ('2x1', 7, 3, 3, 'straight', False),
    ('1x2', 5, 4, 4, 'aligned', False), ('2x1', 5, 4, 4, 'aligned', False), ('2x2', 4, 4, 4, 'aligned', False), ('1x2', 4, 3, 4, 'aligned', True), ('2x1', 4, 3, 1, 'aligned', True),
    ('2x2', 4, 4, 4, '90', False), ('2x2', 4, 4, 4, '90', True), ('1x2', 4, 4, 4, '90', False), ('1x2', 4, 3, 4, '90', True), ('2x1', 4, 4, 4, '90', False), ('2x1', 3, 4, 4, '90', True),
    ('2x2', 3, 5, 4, '90', False), ('2x2', 5, 3, 1, '90', True),
    ('2x2', 4, 4, 4, '180', False), ('1x2', 4, 4, 4, '180', False), ('2x1', 4, 4, 4, '180', False), ('2x1', 3, 4, 1, '180', False), ('bottle', 4, 4, 4, '180', False), ('loop', 4, 4, 1, '180', False),
    ('1x2', 3, 3, 4, 'custom', False), ('2x1', 3, 3, 4, 'custom', False), ('2x2', 3, 3, 4, 'custom', False), ('2x2', 4, 2, 4, 'custom', False), ('2x2', 2, 4, 4, 'custom', False),
    ('loop', 3, 3, 4, 'custom', False), ('bottle', 3, 3, 4, 'custom', False), ('pass', 3, 3, 4, 'custom', False), ('1x1', 3, 3, 4, 'custom', False), ('2x2b', 3, 3, 4, 'custom', False),
    ('2x2x', 3, 3, 4, 'custom', False), ('1x2', 5, 2, 2, 'custom', False), ('1x2', 2, 5, 2, 'custom', False), ('1x2', 4, 3, 1, 'custom', False), ('2x1', 3, 4, 4, 'custom', False),
    ('loop', 6, 3, 4, 'straight', False), ('loop', 5, 4, 4, 'straight', False), ('loop', 5, 3, 4, 'straight', True), ('loop', 5, 3, 1, 'aligned', True), ('loop', 4, 4, 2, '90', False),
    ('bottle', 4, 3, 4, 'straight', False), ('bottle', 6, 3, 4, 'straight', False), ('bottle', 5, 3, 4, 'straight', True), ('pass', 4, 2, 4, 'straight', False), ('pass', 6, 3, 4, 'straight', False),
    ('pass', 5, 3, 4, 'straight', True), ('1x1', 5, 3, 4, 'straight', False), ('1x1', 4, 3, 4, 'straight', True), ('2x2b', 5, 3, 4, 'straight', False), ('2x2x', 5, 3, 4, 'straight', True), ('2x2b', 4, 2, 4, 'straight', False),
    ('1x4', 5, 4, 4, 'straight', False), ('4x1', 5, 4, 4, 'straight', False), ('3x3', 5, 3, 4, 'straight', False), ('1x3', 5, 3, 4, 'straight', False), ('2x4', 4, 4, 4, 'straight', False),
    ('4x2', 4, 4, 4, 'straight', False), ('2x2', 5, 3, None, 'straight', True), ('1x2', 6, 3, None, 'straight', False),
]
THOROUGH = [
    ('2x2', 5, 5, 4, '180', False), ('1x2', 5, 4, 1, '90', True), ('2x2', 5, 4, 4, 'straight', True), ('2x2', 5, 4, 4, '90', False), ('1x2', 4, 3, 4, 'custom', False), ('1x2', 6, 2, 4, 'custom', False),
    ('2x2', 4, 3, 4, 'custom', False), ('loop', 4, 3, 4, 'custom', False), ('bottle', 4, 3, 4, 'custom', False), ('1x3', 6, 3, 4, 'straight', False), ('3x1', 6, 3, 4, 'straight', False), ('3x3', 6, 3, 4, 'straight', False),
    ('1x3', 5, 4, 4, 'straight', False), ('3x1', 5, 4, 4, 'straight', False), ('1x4', 5, 5, 4, 'straight', False), ('2x2', 7, 3, 4, 'straight', False), ('2x2', 7, 3, 2, 'straight', True), ('2x4', 5, 4, 4, 'straight', False),
    ('4x2', 5, 4, 4, 'straight', False), ('1x2', 8, 3, 4, 'straight', False), ('1x2', 8, 3, 5, 'straight', False), ('loop', 6, 4, 4, 'straight', False), ('4x4', 6, 4, 4, 'straight', False), ('3x4', 6, 4, 4, 'straight', False),
    ('2x2', 5, 5, 2, 'straight', False), ('bottle', 6, 4, 4, 'straight', False), ('pass', 6, 4, 4, 'straight', False), ('1x1', 6, 3, 4, 'straight', True), ('loop', 4, 5, 4, '180', False), ('1x2', 5, 4, 4, '180', False),
    ('2x2', 4, 6, 4, 'straight', True), ('2x1', 4, 5, 4, '90', False),
]


def run(tier):
    chk = Check('C03', 'model_checking', tier,
                'for every listed network, grid, underground limit and ends option: all layouts of the grid enumerated and compared as a set with the output of --all')
    items = QUICK + (THOROUGH if tier == 'thorough' else [])
    pmap(compare, sorted(items, key=lambda i: -i[1] * i[2]), chk)
    return chk.finish(['mc/ref.py and mc/bal.py state the belt-laying and wiring rules',
                       'layouts with an underground over only empty cells are excluded on both sides (documented pruning of the generator)'])
