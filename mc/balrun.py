"""Driving the balancer generator, and the networks used for it."""
import json
import os

from .bridge import grid_from_json, key
from .common import REPO, scratch, tool

NETS = {
    '2x2': '0 0 1 1',
    '2x2gap': '5 5 2 2',                    # unused colours below and between
    '2x2rev': '# reversed colours\n\n1 1 0 0\n',
    '1x2': '-1 0 1 1',
    '1x2flip': '3 -1 1 1',                  # unused side listed second
    '2x1': '0 0 -1 1',
    '2x1flip': '0 0 1 -1',
    'loop': '0 1 1 2',                      # one output fed back
    'bottle': '0 0 -1 1\n-1 1 2 2',
    'pass': '0 0 1 1\n1 1 2 2',
    '1x1': '-1 0 1 1\n1 1 -1 2',
    '2x2b': '0 0 1 2\n1 2 3 3',
    '2x2x': '0 0 1 3\n1 3 2 2',
}


def parse_net(text):
    res = []
    for line in text.splitlines():
        line = line.strip()
        if line and not line.startswith('#'):
            v = [None if int(q) == -1 else int(q) for q in line.split()]
            res.append((tuple(v[:2]), tuple(v[2:])))
    return res


def net_text(net):
    return ''.join(' '.join(str(-1 if c is None else c) for c in a + b) + '\n' for a, b in net)


def shipped(name):
    return open(os.path.join(REPO, 'networks', name)).read()


def generate(text, w, h, opts=(), partial=None):
    """Run the generator; returns a list of (layout key, key with border connectivity, layout)."""
    with scratch() as d:
        with open(d + '/net', 'w') as f:
            f.write(text if text.endswith('\n') else text + '\n')
        argv = [d + '/net', w, h] + list(opts)
        if partial is not None:
            with open(d + '/partial', 'w') as f:
                f.write(partial)
            argv += ['--partial', d + '/partial']
        r = tool('belt_balancer', argv).check()
    res = []
    for line in r.lines:
        rows = json.loads(line)
        g, gw, gh = grid_from_json(rows)
        if (gw, gh) != (w, h):
            raise ValueError('printed a %dx%d layout, asked for %dx%d' % (gw, gh, w, h))
        conn = tuple((c.get('input_direction'), c.get('output_direction')) for row in rows for c in row)
        k = key(g, w, h)
        res.append((k, (k, conn), g))
    return res


def options(L, mode='straight', use_ends=False, all_=True):
    o = ['--underground-length', -1 if L is None else L]
    if mode != 'straight':
        o.append('--' + mode)
    if use_ends:
        o.append('--use-ends')
    if all_:
        o.append('--all')
    return o
