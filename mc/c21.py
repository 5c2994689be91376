"""C21: rendered pictures.  The real render command runs over stand-ins for OpenGL, the window and the video encoder (mc/glsim.py);
everything it draws in every frame is compared with what the layout asks for.  Key presses are explored as all sequences up to a depth."""
import base64
import itertools
import json
import os
import zlib

import numpy as np

from . import glsim, sources
from .bridge import grid_to_json, to_json_tile
from .common import Check, pmap, scratch, tool
from .ref import ALPHABET, E

VEC = [(1, 0), (0, -1), (-1, 0), (0, 1)]
# the game's rows of the belt sheet (1-based): side the belt comes from -> side it goes to
STRAIGHT = {0: 1, 2: 2, 1: 3, 3: 4}
SIDES = {0: 'e', 1: 'n', 2: 'w', 3: 's'}
CURVES = {'en': 5, 'ne': 6, 'wn': 7, 'nw': 8, 'se': 9, 'es': 10, 'sw': 11, 'ws': 12}
STARTING = {3: 13, 2: 15, 1: 17, 0: 19}                 # belt that begins at this side ...
ENDING = {3: 14, 2: 16, 1: 18, 0: 20}                   # ... ends towards it
LINES, QUADS = 1, 7


def belt_row(t):
    if t[0] == 'B':
        i, o = t[1], t[2]
        return (STRAIGHT[i] if i == o else CURVES[SIDES[(i + 2) % 4] + SIDES[o]]) - 1
    if t[0] == 'S':
        return STRAIGHT[t[1]] - 1
    return (ENDING[t[1]] if t[2] else STARTING[(t[1] + 2) % 4]) - 1


def read(cell):
    j = cell['tile']
    k = j['type']
    return {'empty': lambda: ('E',), 'filler': lambda: ('X',), 'belt': lambda: ('B', j['input_direction'], j['output_direction']),
            'underground_belt': lambda: ('U', j['direction'], j['is_input']), 'splitter': lambda: ('S', j['direction'], j['is_head']),
            'inserter': lambda: ('I', j['direction'], j['insert_type']), 'assembling_machine': lambda: ('M', j['x'], j['y'])}[k]()


def length(rows):
    return 32 if any(read(c)[0] == 'S' for r in rows for c in r) else 16


def first(v):
    return v[0] if isinstance(v, list) else v


class Bad(Exception):
    pass


def judge(picture, size, rows, opts, a):
    """What is wrong with the picture of this layout in animation step a"""
    w, h = len(rows[0]), len(rows)
    cs, pad = opts.get('cell', 32), opts.get('pad', 0)
    want = (max(w * cs + round(2 * pad * cs), 1), max(h * cs + round(2 * pad * cs), 1))
    if tuple(size) != want:
        return 'the picture is %sx%s pixels instead of %sx%s' % (*size, *want)
    sx, sy = size[0] / (w + 2 * pad), size[1] / (h + 2 * pad)

    def unit(b):
        return b[0] / sx - pad, b[1] / sy - pad, b[2] / sx - pad, b[3] / sy - pad
    sprites, lines, texts = [], [], []
    for k, d in enumerate(picture):
        if d.name:
            sprites.append((k, d))
        elif d.text is not None:
            texts.append(d)
        elif d.mode == LINES:
            lines.append(d)
    used = set()
    tints = []
    tops, bottoms = [], []

    def take(what, x, y, sheet, frame, top, part=None, exact=None):
        """one sprite of the sheet for cell x, y; frame = (column, row, columns width, height)"""
        col, row, fw, fh = frame
        found = []
        for k, d in sprites:
            if k in used or d.name != sheet:
                continue
            b = unit(d.box())
            if exact is not None:
                if any(abs(p - q) > 0.02 for p, q in zip(b, exact)):
                    continue
            elif not (b[0] <= x + .5 <= b[2] and b[1] <= y + .5 <= b[3] and abs((b[0] + b[2]) / 2 - x - .5) <= .5 and abs((b[1] + b[3]) / 2 - y - .5) <= .5):
                continue
            px0, py0, px1, py1, ok = d.part()
            if not ok:
                continue
            got = (px0 / fw - col, py0 / fh - row, px1 / fw - col, py1 / fh - row)
            if min(got) < -0.01 or max(got) > 1.01:
                continue
            if part is None and any(abs(p - q) > 0.01 for p, q in zip(got, (0, 0, 1, 1))):
                continue
            if part is not None and not part(got):
                continue
            found.append((k, d, got))
        if len(found) != 1:
            raise Bad('%s at %d,%d in step %d: %d matching sprites of %s' % (what, x, y, a, len(found), sheet))
        k, d, got = found[0]
        used.add(k)
        (tops if top else bottoms).append(k)
        return d, got

    try:
        halves = {}
        for y in range(h):
            for x in range(w):
                cell = rows[y][x]
                t = read(cell)
                if t[0] in 'EX':
                    continue
                name = str(t)
                mine = []
                if t[0] in 'BUS':
                    mine.append(take(name, x, y, 'hr-transport-belt.png', (a % 16, belt_row(t), 128, 128), False, exact=(x - .5, y - .5, x + 1.5, y + 1.5))[0])
                if t[0] == 'U':
                    d = [1, 0, 3, 2][t[1]]                  # north, east, south, west
                    col, row = (d, 1) if t[2] else ((d + 2) % 4, 0)
                    mine.append(take(name, x, y, 'hr-underground-belt-structure.png', (col, row, 192, 192), True, exact=(x - 1, y - 1, x + 2, y + 2))[0])
                if t[0] == 'S':
                    f = (a % 8, (a // 8) % 4)
                    if t[1] in (0, 2):
                        lower = t[2] if t[1] == 0 else not t[2]
                        sheet, fw, fh = {(0, True): ('hr-splitter-east.png', 90, 84), (0, False): ('hr-splitter-east-top_patch.png', 90, 104),
                                         (2, True): ('hr-splitter-west.png', 90, 86), (2, False): ('hr-splitter-west-top_patch.png', 90, 96)}[t[1], lower]
                        mine.append(take(name, x, y, sheet, f + (fw, fh), True)[0])
                    else:
                        right = t[2] if t[1] == 1 else not t[2]
                        sheet, fw, fh = ('hr-splitter-north.png', 160, 70) if t[1] == 1 else ('hr-splitter-south.png', 164, 64)

                        def half(g, right=right):
                            return g[1] < .02 and g[3] > .98 and (g[0] > .25 and g[2] > .98 if right else g[0] < .02 and g[2] < .75)
                        # a half sprite may be drawn mirrored in both texture and extent: only its place counts
                        d, got = take(name, x, y, sheet, f + (fw, fh), True, part=half)
                        mine.append(d)
                        halves.setdefault(t[1], {})[right] = got[0] if right else got[2]
                if t[0] == 'I':
                    base = 'hr-long-handed-inserter-' if t[2] else 'hr-inserter-'
                    mine.append(take(name, x, y, base + 'platform.png', ([1, 0, 3, 2][t[1]], 0, 105, 79), False)[0])
                    def end(d, far):
                        v = [v for v in d.verts if (v[3] > .5) == far]
                        return sum(p[0] for p in v) / len(v) / sx - pad - x - .5, sum(p[1] for p in v) / len(v) / sy - pad - y - .5
                    hand_name = base + ('hand-closed.png' if a > 16 else 'hand-open.png')
                    arm = [(k, d) for k, d in sprites if k not in used and d.name == base + 'hand-base.png' and max(map(abs, end(d, False))) < .3]
                    if len(arm) != 1:
                        raise Bad('%s at %d,%d in step %d: %d arms drawn' % (name, x, y, a, len(arm)))
                    elbow = end(arm[0][1], True)
                    hand = [(k, d) for k, d in sprites if k not in used and d.name == hand_name and max(abs(p - q) for p, q in zip(end(d, False), elbow)) < .3]
                    if len(hand) != 1:
                        raise Bad('%s at %d,%d in step %d: %d hands drawn' % (name, x, y, a, len(hand)))
                    hands = arm + hand
                    for k, d in hands:
                        used.add(k)
                        tops.append(k)
                        mine.append(d)
                    # the far end of the hand lies along the direction of the inserter
                    tip = end(hand[0][1], True)
                    reach = (abs(1 - a / 16) - .5) * (1.5 if t[2] == 0 else 3.75)
                    if abs(tip[0] - VEC[t[1]][0] * reach) > .4 or abs(tip[1] - VEC[t[1]][1] * reach) > .4:
                        raise Bad('%s at %d,%d in step %d: the hand reaches to %s' % (name, x, y, a, tip))
                if t[0] == 'M':
                    def third(g, t=t):
                        mid = (g[0] + g[2]) / 2, (g[1] + g[3]) / 2
                        return abs(mid[0] * 3 - .5 - t[1]) < .35 and abs(mid[1] * 3 - .5 - t[2]) < .35 and .2 < g[2] - g[0] < .45 and .2 < g[3] - g[1] < .45
                    mine.append(take(name, x, y, 'hr-assembling-machine-1.png', (a % 8, (a // 8) % 4, 214, 226), False, part=third)[0])
                tints += [(first(cell.get('colour', 0)), d.colour) for d in mine]
        for d, s in halves.items():
            if len(s) == 2 and abs(s[True] - s[False]) > .02:
                raise Bad('the halves of a splitter show %s of their picture' % s)
        left = [d for k, d in sprites if k not in used]
        if left:
            raise Bad('step %d: %d more sprites, e.g. of %s at %s' % (a, len(left), left[0].name, unit(left[0].box())))
        if tops and bottoms and min(tops) < max(bottoms):
            raise Bad('step %d: a part that lies on top is drawn before one below' % a)
        # underground lines
        want = []
        if opts.get('underground'):
            for y in range(h):
                for x in range(w):
                    u = rows[y][x].get('underground')
                    if u is not None:
                        if u[0] or u[2]:
                            want.append(((x, y + .5, x + 1, y + .5), first(rows[y][x].get('colour_ux', 0))))
                        if u[1] or u[3]:
                            want.append(((x + .5, y, x + .5, y + 1), first(rows[y][x].get('colour_uy', 0))))
        got = []
        for d in lines:
            b = unit(d.box())
            if (b[0] == b[2] and abs(b[0] * 2 % 2 - 1) < .02) or (abs(b[1] - b[3]) < 1e-9 and abs(b[1] * 2 % 2 - 1) < .02):
                got.append((tuple(round(v * 4) / 4 for v in b), d.colour))
        if sorted(p for p, _ in want) != sorted(p for p, _ in got):
            raise Bad('underground lines %s instead of %s' % (sorted(p for p, _ in got), sorted(p for p, _ in want)))
        tints += [(c, dict(got)[p]) for p, c in want]
        # colours
        seen = {}
        for c, rgb in tints:
            if opts.get('hide'):
                if rgb != (1, 1, 1):
                    raise Bad('drawn in colour %s though colours are hidden' % (rgb,))
            elif c is None:
                if len(set(rgb)) != 1:
                    raise Bad('a cell without colour is drawn in %s' % (rgb,))
            elif seen.setdefault(c, rgb) != rgb:
                raise Bad('colour %s is drawn as %s and as %s' % (c, seen[c], rgb))
        if len(set(seen.values())) != len(seen):
            raise Bad('different colours look the same: %s' % seen)
        # text
        names = opts.get('raw', [])
        for y in range(h):
            for x in range(w):
                exp = []
                for n in names:
                    v = rows[y][x]
                    for p in n.split('.'):
                        v = v[int(p)] if p.isdigit() else v.get(p)
                    exp += str(np.array(v)).split('\n')
                here = []
                for d in texts:
                    b = unit(d.box())
                    if x - .01 <= b[0] and b[2] <= x + 1.01 and y - .01 <= b[1] and b[3] <= y + 1.01:
                        here.append((b[1], d.text))
                here = [s for _, s in sorted(here)]
                if here != exp:
                    raise Bad('cell %d,%d shows the text %s instead of %s' % (x, y, here, exp))
        if len(texts) != 0 and not names:
            raise Bad('text that was not asked for')
    except Bad as e:
        return str(e)
    return None


def argv(opts):
    r = []
    if 'cell' in opts:
        r += ['--cell-size', opts['cell']]
    if 'pad' in opts:
        r += ['--padding', opts['pad']]
    if opts.get('hide'):
        r += ['--hide-colour']
    if opts.get('underground'):
        r += ['--show-underground']
    if opts.get('count'):
        r += ['--colour-count', opts['count']]
    for n in opts.get('raw', []):
        r += ['--show-raw', n]
    if opts.get('gif'):
        r += ['--export-format', 'gif']
    return r


def picture_of(rows):
    return '\n'.join(' '.join(''.join(map(str, read(c))) for c in r) for r in rows)[:600]


def export(item):
    """--export-all: one video per layout, in order, every frame as it should be"""
    layouts, opts = item
    bad = []
    r = glsim.run(['--export-all'] + argv(opts), [json.dumps(l) for l in layouts])
    n = 0
    names = [v[0] for v in r['videos']]
    ext = 'gif' if opts.get('gif') else 'mp4'
    if names != ['%d.%s' % (k, ext) for k in range(len(layouts))]:
        bad.append(('render --export-all writes %s for %d layouts' % (names[:20], len(layouts)), repr(opts)))
    else:
        for (name, shots, given, _), rows in zip(r['videos'], layouts):
            if len(shots) != length(rows):
                bad.append(('render --export-all: the video has %d frames instead of %d\n%s' % (len(shots), length(rows), picture_of(rows)), repr(opts)))
                continue
            for a, (picture, size, upright) in enumerate(shots):
                n += 1
                why = judge(picture, size, rows, opts, a)
                if why is None and not upright:
                    why = 'the video is upside down'
                if why:
                    bad.append(('render --export-all %s: %s\n%s' % (' '.join(map(str, argv(opts))), why, picture_of(rows)), json.dumps([rows, opts])))
                    break
            if len(bad) > 2:
                break
    return dict(counts=dict(states=len(layouts), transitions=n, traces_validated_against_impl=n), part=('export', dict(layouts=len(layouts), frames=n)), violations=bad)


def entities(text):
    d = json.loads(zlib.decompress(base64.b64decode(text[1:])))['blueprint']
    return sorted(json.dumps({k: v for k, v in e.items() if k != 'entity_number'}, sort_keys=True) for e in d.get('entities', []))


def keys(item):
    """all key sequences: what is shown, exported and saved after each"""
    layouts, first_key, depth, opts = item
    lines = [json.dumps(l) for l in layouts]
    blue = [entities(t) for t in tool('blueprint', ['encode'], ''.join(l + '\n' for l in lines)).check().lines]
    bad = []
    n = runs = 0
    for rest in itertools.product(['i', 'k', 'e', 's', ''], repeat=depth - 1):
        seq = (first_key,) + rest
        saves = 's' in seq
        script = [list(k) for k in seq] + [[]] * (70 if saves else 3)
        r = glsim.run(argv(opts), lines, script)
        runs += 1
        index, loaded, closed = 0, 1, False
        want_prints = []
        why = None
        last = None
        for k, (picture, size) in enumerate(r['frames']):
            key = seq[k] if k < len(seq) else ''
            moved = key in ('i', 'k')
            if key == 'i':
                index += 1
                if index >= loaded and not closed:
                    if loaded < len(layouts):
                        loaded += 1
                    else:
                        closed = True
                index %= loaded
            elif key == 'k':
                index = (index - 1) % loaded
            elif key == 'e':
                want_prints.append(index)
            n += 1
            N = length(layouts[index])
            cand = range(N) if last is None or moved else [last, (last + 1) % N]
            for a in cand:
                why = judge(picture, size, layouts[index], opts, a)
                if why is None:
                    last = a
                    break
            if why:
                why = 'after keys %s layout %d should be shown: %s' % (list(seq[:k + 1]), index, why)
                break
        if why is None:
            got = []
            for l in r['out']:
                if l.startswith('0e'):
                    got.append(entities(l))
            if got != [blue[k] for k in want_prints]:
                why = 'after keys %s: %d blueprints printed that are not those of layouts %s' % (list(seq), len(got), want_prints)
        if why is None:
            if bool(r['videos']) != saves:
                why = 'after keys %s: %d videos saved' % (list(seq), len(r['videos']))
            for name, shots, _, _ in r['videos']:
                k = int(name.split('.')[0])
                if k >= len(layouts) or len(shots) != length(layouts[k]):
                    why = 'after keys %s: video %s has %d frames' % (list(seq), name, len(shots))
                    break
                for a, (picture, size, upright) in enumerate(shots):
                    why = why or judge(picture, size, layouts[k], opts, a)
                if why:
                    why = 'after keys %s, video %s: %s' % (list(seq), name, why)
                    break
        if why:
            bad.append(('render: ' + why, repr((seq, opts))))
            if len(bad) > 2:
                break
    return dict(counts=dict(states=n, transitions=n, traces_validated_against_impl=runs), part=('keys', dict(sequences=runs, frames=n)), violations=bad)


def empty(_):
    r = glsim.run(['--export-all'], [])
    bad = []
    if r['videos'] or r['frames']:
        bad.append(('render draws something without any layout', ''))
    return dict(counts=dict(states=1, transitions=1, traces_validated_against_impl=1), part=('export', dict(layouts=0, frames=0)), violations=bad)


def _run(j):
    return j[0](j[1])


ALL = [t for t in ALPHABET] + [('X',)] + [('I', d, k) for d in range(4) for k in (0, 1)] + [('M', x, y) for x in range(3) for y in range(3)]


def cell(t, **kw):
    if t[0] == 'I':
        j = {'type': 'inserter', 'direction': t[1], 'insert_type': t[2]}
    elif t[0] == 'M':
        j = {'type': 'assembling_machine', 'x': t[1], 'y': t[2]}
    else:
        j = to_json_tile(t)
    return dict(tile=j, **kw)


def run(tier):
    chk = Check('C21', 'model_checking', tier, 'all tiles at all positions of the listed grids, all pairs of tiles side by side, all frames; all colourings of three cells; all key sequences up to the stated depth')
    th = tier == 'thorough'
    jobs = [(empty, None)]
    # every tile at every position
    for w, h in ((1, 1), (3, 2), (1, 3), (2, 4)) + (((5, 4),) if th else ()):
        for x in range(w):
            for y in range(h):
                ls = []
                for t in ALL:
                    rows = [[cell(E) for _ in range(w)] for _ in range(h)]
                    rows[y][x] = cell(t)
                    ls.append(rows)
                opts = [{}, dict(cell=7), dict(pad=1), dict(cell=20, pad=.5), dict(hide=True, gif=True)]
                jobs.append((export, (ls, opts[(x + 2 * y + w) % 5])))
    # every pair of tiles side by side
    some = ALL if th else [t for k, t in enumerate(ALL) if t[0] in 'BUS' or t in (E, ('I', 0, 0), ('I', 1, 1), ('M', 0, 0), ('M', 1, 1), ('M', 2, 1))]
    for k, t in enumerate(some):
        jobs.append((export, ([[[cell(t), cell(u)]] for u in some], {})))
        jobs.append((export, ([[[cell(t)], [cell(u)]] for u in some], dict(hide=True))))
    # colours and undergrounds
    B, U = ('B', 0, 0), ('U', 0, True)
    cols = [None, 0, 1, 2, 3, 7, [1, 2], [4]]
    for c in cols:
        ls = [[[cell(B, colour=c), cell(U, colour=d), cell(('S', 1, True), colour=e)]] for d in cols for e in cols]
        jobs.append((export, (ls, {})))
        jobs.append((export, (ls, dict(count=8))))
    for u in itertools.product((False, True), repeat=4):
        ls = [[[cell(E, underground=list(u), colour=0, colour_ux=p, colour_uy=q), cell(B, underground=[u[1], False, False, u[2]], colour=1, colour_ux=q, colour_uy=p)],
               [cell(E), cell(E, underground=[False] * 4)]] for p in (0, 1, 2, None) for q in (0, 1, [2])]
        jobs.append((export, (ls, dict(underground=True))))
        jobs.append((export, (ls, dict(underground=True, hide=True, pad=.5))))
        jobs.append((export, (ls[:3], {})))
    # text
    ls = [[[cell(B, colour=1, underground=[True, False, False, True], n=[[1, 2], [3, 4]]), cell(E, colour=12, underground=[False] * 4, n=[[5, 6], [7, 18]])]] * k for k in (1, 2)]
    for raw in (['colour'], ['colour', 'underground'], ['tile.type'], ['n'], ['n', 'colour'], ['underground.0'], ['underground.3', 'colour'], ['n.1.0'], ['colour', 'n.0']):
        jobs.append((export, (ls, dict(raw=raw))))
    # shipped balancers
    ships = [l[2:5] for l in sources.books(1)]
    for k in range(0, len(ships), 8):
        jobs.append((export, ([grid_to_json(*l) for l in ships[k:k + 8]], {})))
    # keys
    A = [[cell(B), cell(U)]]
    S = [[cell(('S', 0, False)), cell(B)], [cell(('S', 0, True)), cell(E)]]
    C = [[cell(('B', 1, 2))], [cell(('U', 3, False))], [cell(('X',))]]
    D = [[cell(('U', 2, True)), cell(('B', 2, 3))]]
    F = [[cell(B), cell(B)], [cell(E), cell(('B', 1, 2))]]
    G = [[cell(('S', 1, False)), cell(('S', 1, True))], [cell(('B', 1, 1)), cell(E)]]
    for n, depth in ((1, 3), (2, 4), (3, 5 if th else 4)):
        for k in ('i', 'k', 'e', 's', ''):
            jobs.append((keys, ([A, S, C][:n], k, depth, {})))
            jobs.append((keys, ([S, C, A][:n], k, depth - 1, dict(pad=1, hide=True))))
            if n > 1:                                   # layouts of the same size, with the same and with different numbers of steps
                jobs.append((keys, ([A, D, A][:n], k, depth - 1, {})))
                jobs.append((keys, ([S, F, G][:n], k, depth - 1, {})))
    pmap(_run, jobs, chk)
    return chk.finish(['mc/glsim.py stands for OpenGL, the window and the video encoder; pixels are not rasterised', 'rows and columns of the sprite sheets are those of the game\'s belt data',
                       'sprites without an exact grid (splitters, inserters, machines) are judged by cell, part and frame, not to the pixel'])
