"""C22: drawn networks.  The real command draws with the real graphviz; graphviz's own description of the picture (format dot_json) is read back."""
import collections
import itertools
import json
import os

from . import bal
from .balrun import net_text, parse_net
from .common import Check, REPO, pmap, scratch, tool


def expected(net, ends):
    cin, cout = ends
    boxes = collections.Counter((frozenset(c for c in a if c is not None), frozenset(c for c in b if c is not None)) for a, b in net)
    return boxes, cin, cout


def judge(doc, net, ends):
    """What is wrong with the picture"""
    objs = {o['_gvid']: o for o in doc.get('objects', [])}
    invis = {k for k, o in objs.items() if 'invis' in o.get('style', '')}
    joints = {k: o['label'] for k, o in objs.items() if k not in invis and o.get('shape') in ('none', 'plaintext', 'plain', 'point')}
    boxes = {k: (set(), set()) for k in objs if k not in invis and k not in joints}
    if len(set(joints.values())) != len(joints):
        return 'a colour is drawn at two places: %s' % sorted(joints.values())
    if any(objs[k].get('label') == '\\N' for k in boxes):
        return 'a box that is no splitter is drawn: %s' % [objs[k]['name'] for k in boxes if objs[k].get('label') == '\\N']
    starts, stops = collections.Counter(), collections.Counter()
    direct = collections.Counter()
    seen = collections.Counter()
    for e in doc.get('edges', []):
        a, b, label = e['tail'], e['head'], e.get('label', '')
        if a in boxes and b in boxes:
            direct[label] += 1
            boxes[a][1].add(label)
            boxes[b][0].add(label)
        elif a in boxes and b in joints:
            boxes[a][1].add(joints[b])
        elif a in joints and b in boxes:
            boxes[b][0].add(joints[a])
        elif a in invis and b in joints:
            starts[joints[b]] += 1
        elif a in joints and b in invis:
            stops[joints[a]] += 1
        else:
            return 'a connection from %s to %s' % (objs[a]['name'], objs[b]['name'])
        seen[a, b, label] += 1
        if e.get('dir', 'forward') != 'forward':
            return 'a connection is drawn backwards'
        # the direction must be visible at the far end of each connection
    if max(seen.values(), default=0) > 1:
        return 'a connection is drawn twice'
    both = set(direct) & set(joints.values())
    if both or max(direct.values(), default=0) > 1:
        return 'colour %s is drawn in unconnected pieces' % sorted(both or direct)
    want, cin, cout = expected(net, ends)
    if starts != {str(cin): 1} or stops != {str(cout): 1}:
        return 'the inputs lead to %s and the outputs come from %s' % (dict(starts), dict(stops))
    got = collections.Counter((frozenset(i), frozenset(o)) for i, o in boxes.values())
    want = collections.Counter({(frozenset(map(str, i)), frozenset(map(str, o))): n for (i, o), n in want.items()})
    if got != want:
        return 'splitters are drawn as %s instead of %s' % (sorted((sorted(i), sorted(o)) for i, o in (got - want).elements()), sorted((sorted(i), sorted(o)) for i, o in (want - got).elements()))
    arrows = [e for e in doc.get('edges', []) if e['head'] in boxes and e.get('arrowhead') == 'none']
    if arrows:
        return 'a connection into a splitter has no arrow head'
    return None


def ends_of(net):
    i, o = bal.net_ends(net)
    return (i[0][0], o[0][0]) if len(i) == 1 and len(o) == 1 else None


def snapshot(d):
    r = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            r[os.path.relpath(p, d)] = open(p, 'rb').read()
    return r


def draw(d, text, source, target, extra=()):
    """Runs the command; (content of the picture file, what else changed)"""
    for p in (source, target):
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
    with open(os.path.join(d, source), 'w') as f:
        f.write(text)
    before = snapshot(d)
    tool('network', ['render', source, target] + list(extra), cwd=d).check()
    after = snapshot(d)
    picture = after.pop(target, None)
    before.pop(target, None)
    return picture, sorted(set(before.items()) ^ set(after.items()))


def pictures(item):
    nets, part = item
    bad = []
    n = 0
    with scratch() as d:
        for text in nets:
            net = parse_net(text)
            ends = ends_of(net)
            if ends is None:
                continue
            n += 1
            picture, other = draw(d, text, 'n', 'p.dot_json')
            why = 'no picture is written' if picture is None else judge(json.loads(picture), net, ends)
            if why is None and other:
                why = 'also changes %s' % sorted({k for k, _ in other})
            if why:
                bad.append(('network render: %s\n%s' % (why, text), text))
                if len(bad) > 3:
                    break
    return dict(counts=dict(states=n, transitions=n, traces_validated_against_impl=n), part=(part, dict(networks=n)), violations=bad)


def names(_):
    """every placing of the picture beside the network file: only the picture is written, in the format of its extension"""
    bad = []
    n = 0
    text = open(os.path.join(REPO, 'networks', '3x3')).read()
    heads = {'png': b'\x89PNG', 'svg': b'<?xml', 'pdf': b'%PDF', 'dot_json': b'{'}
    for source in ('n', 'a/n', 'n.net', 'n.x'):
        for stem in ('n', 'a/n', 'p', 'b/p.q', 'n.x'):
            for ext, head in heads.items():
                for extra in ((), ('--engine', 'neato')) if ext == 'svg' else ((),):
                    with scratch() as d:
                        target = stem + '.' + ext
                        if target == source:
                            continue
                        for other in (stem, stem + '.gv', 'noname.gv', 'Network'):
                            p = os.path.join(d, other)
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            with open(p, 'w') as f:
                                f.write('kept')
                        picture, changed = draw(d, text, source, target, extra)
                        n += 1
                        if picture is None or not picture.startswith(head):
                            bad.append(('network render %s %s: the picture is %s' % (source, target, picture and picture[:20]), ''))
                        elif changed:
                            bad.append(('network render %s %s also changes %s' % (source, target, sorted({k for k, _ in changed})), ''))
    return dict(counts=dict(states=n, transitions=n, traces_validated_against_impl=n), part=('file names', dict(runs=n)), violations=bad[:5])


def created(sizes):
    texts = []
    with scratch() as d:
        for k in sizes:
            tool('network', ['create', d + '/n', k]).check()
            texts.append(open(d + '/n').read())
    return pictures((texts, 'created networks'))


def _run(j):
    return j[0](j[1])


def small(n, colours):
    """all networks of n splitters over the colours, ends of one colour each"""
    pairs = list(itertools.combinations_with_replacement([-1] + list(range(colours)), 2))
    pairs.remove((-1, -1))
    pairs = [p if k % 2 else p[::-1] for k, p in enumerate(pairs)]
    nodes = [a + b for a in pairs for b in pairs]
    for c in itertools.combinations_with_replacement(nodes, n):
        text = '\n'.join(' '.join(map(str, v)) for v in c) + '\n'
        if ends_of(parse_net(text)):
            yield text


def run(tier):
    chk = Check('C22', 'model_checking', tier, 'all networks of one and two splitters over up to four colours (thorough: three splitters over three), all shipped networks and their flips, created networks; all listed file names')
    th = tier == 'thorough'
    jobs = [(names, None)]
    ships = sorted(os.listdir(os.path.join(REPO, 'networks')))
    texts = [open(os.path.join(REPO, 'networks', s)).read() for s in ships]
    texts += [net_text([(b, a) for a, b in parse_net(t)]) for t in texts]
    jobs += [(pictures, (texts[k::16], 'shipped networks')) for k in range(16)]
    jobs += [(created, list(range(2 + k, 65 if th else 34, 8))) for k in range(8)]
    for n, c in ((1, 3), (2, 3), (2, 4)) + (((3, 3),) if th else ()):
        ts = list(small(n, c))
        if (n, c) == (2, 4) and not th:
            ts = [t for t in ts if '3' in t]          # the others are among those of three colours
        k = max(1, len(ts) // 60)
        jobs += [(pictures, (ts[i:i + k], 'networks of %d splitters, %d colours' % (n, c))) for i in range(0, len(ts), k)]
    chk.sample('0 0 1 1 / -1 1 2 2 / -1 1 2 0: start -> 0, 2 -> end, splitter 3 feeds back into colour 0')
    pmap(_run, jobs, chk)
    return chk.finish(['graphviz describes the picture it draws faithfully (format dot_json); its layout is not judged'])
