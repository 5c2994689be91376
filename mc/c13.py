"""C13: blueprint books.  All sequences of blueprints up to a length through the real pack and unpack commands."""
import base64
import copy
import itertools
import json
import zlib

from . import books, sources
from .c10 import entities
from .common import Check, REPO, pmap, tool


def enc(data):
    return '0' + base64.b64encode(zlib.compress(json.dumps(data).encode())).decode()


def bp(label, ents, **kw):
    b = {'item': 'blueprint', 'version': 281474976710656, 'entities': ents, 'icons': [{'signal': {'type': 'item', 'name': 'splitter'}, 'index': 1}]}
    if label is not None:
        b['label'] = label
    return dict({'blueprint': b}, **kw)


BELT = {'entity_number': 1, 'name': 'transport-belt', 'position': {'x': 0.5, 'y': 0.5}, 'direction': 2}
ITEMS = [
    bp('1 to 1', [BELT]),
    bp(None, [BELT, dict(BELT, entity_number=2, position={'x': -7.5, 'y': 100000.5}, direction=6)]),
    bp('', []),
    bp('4 \u2192 4 "quoted" \n line', [dict(BELT, name='express-splitter', position={'x': 1, 'y': 0.5})], index=7),
    {'blueprint_book': {'item': 'blueprint-book', 'label': 'inner', 'active_index': 1, 'version': 1, 'blueprints': [bp('a', [BELT], index=0), bp('b', [], index=1)]}},
]


def strip(d):
    return {k: v for k, v in d.items() if k != 'index'}


def one(seq, label, bad):
    argv = ['pack'] + (['--label', label] if label is not None else [])
    what = 'packing %d blueprints %s with label %r' % (len(seq), [json.dumps(d)[:40] for d in seq[:4]], label)
    r = tool('blueprint_book', argv, ''.join(enc(d) + '\n' for d in seq)).check()
    if len(r.lines) != 1:
        bad.append((what + ': %d lines' % len(r.lines), repr(seq)))
        return
    data = books.decode(r.lines[0])
    book = data.get('blueprint_book', {})
    if [strip(d) for d in book.get('blueprints', ())] != [strip(d) for d in seq]:
        bad.append((what + ': the book holds other blueprints', r.lines[0]))
    elif [d.get('index') for d in book['blueprints']] != list(range(len(seq))):
        bad.append((what + ': numbered %s' % [d.get('index') for d in book['blueprints']], r.lines[0]))
    elif book.get('label') != label or book.get('item') != 'blueprint-book':
        bad.append((what + ': the book carries label %r, item %r' % (book.get('label'), book.get('item')), r.lines[0]))
    u = tool('blueprint_book', ['unpack'], r.lines[0] + '\n').check()
    if [strip(books.decode(l)) for l in u.lines] != [strip(d) for d in seq]:
        bad.append((what + ': unpacking gives %d other blueprints' % len(u.lines), r.lines[0]))
    # a book made by someone else, with or without numbers
    for numbered in (True, False):
        foreign = {'blueprint_book': {'item': 'blueprint-book', 'active_index': 0, 'version': 1, 'blueprints': [dict(strip(d), index=k) if numbered else strip(d) for k, d in enumerate(seq)]}}
        u = tool('blueprint_book', ['unpack'], enc(foreign) + '\n').check()
        if [strip(books.decode(l)) for l in u.lines] != [strip(d) for d in seq]:
            bad.append(('unpacking a foreign book of %d blueprints gives others' % len(seq), enc(foreign)))


def result(states, n, bad, part):
    return dict(counts=dict(states=states, transitions=n, traces_validated_against_impl=states), part=(part, dict(sequences=states)), violations=bad[:50])


def sequences(item):
    n, first = item
    bad, states = [], 0
    for rest in itertools.product(range(len(ITEMS)), repeat=n - len(first)):
        seq = [ITEMS[k] for k in first + rest]
        for label in (None, 'My book') if n > 2 else (None, '', 'x', 'My book \u2192 "2"'):
            one(seq, label, bad)
            states += 1
    return result(states, 4 * states, bad, 'sequences of %d' % n)


def orders(_):
    bad, states = [], 0
    own = [bp('%d' % k, [dict(BELT, direction=2 * (k % 4))] * (k + 1)) for k in range(5)]
    for p in itertools.permutations(own):
        one(list(p), 'orders', bad)
        states += 1
    return result(states, 4 * states, bad, 'orders')


def reused(_):
    """the same blueprints packed into two books: packing leaves what it is given as it is"""
    from factorio_sat import blueprint_book
    bad, states = [], 0
    for n in range(1, 4):
        for seq in itertools.product(range(len(ITEMS)), repeat=n):
            mine = [copy.deepcopy(ITEMS[k]) for k in seq]
            before = copy.deepcopy(mine)
            first = blueprint_book.pack_book(mine, 'first')
            shown = json.dumps(first)
            second = blueprint_book.pack_book(mine[::-1])
            states += 1
            if mine != before:
                bad.append(('packing %s changes the blueprints given' % (seq,), repr(before)))
            if json.dumps(first) != shown:
                bad.append(('packing %s again changes the first book' % (seq,), repr(before)))
            if 'label' in second['blueprint_book'] or [strip(d) for d in second['blueprint_book']['blueprints']] != [strip(d) for d in before[::-1]]:
                bad.append(('the second book of %s holds something of the first' % (seq,), repr(before)))
    return result(states, 2 * states, bad, 'blueprints used twice')


def long(n):
    bad = []
    one([bp('%d' % (k * k % 101), [dict(BELT, position={'x': k + 0.5, 'y': 0.5})]) for k in range(n)], 'long', bad)
    return result(1, 4, bad, 'long books')


def shipped(name):
    bad = []
    text = open('%s/books/%s.txt' % (REPO, name)).read().strip()
    data = books.decode(text)
    u = tool('blueprint_book', ['unpack'], text + '\n').check()
    want = [strip(d) for d in data['blueprint_book']['blueprints']]
    if [strip(books.decode(l)) for l in u.lines] != want:
        bad.append(('unpacking the shipped book %s' % name, name))
    one(want, data['blueprint_book'].get('label'), bad)
    return result(1, 5, bad, 'shipped books')


def encoded(item):
    """layouts through the blueprint command, packed, unpacked and decoded again"""
    bad = []
    lines = [json.dumps([[{'tile': t} for t in row] for row in rows]) for rows in item]
    e = tool('blueprint', ['encode', '--label', 'L'], '\n'.join(lines) + '\n').check()
    p = tool('blueprint_book', ['pack'], e.out).check()
    u = tool('blueprint_book', ['unpack'], p.out).check()
    a = tool('blueprint', ['decode'], e.out).check()
    b = tool('blueprint', ['decode'], u.out).check()
    if a.out != b.out or not a.out:
        bad.append(('encode, pack, unpack, decode differs from encode, decode', repr(item)))
    return result(1, 5, bad, 'pipelines')


def _run(job):
    return globals()[job[0]](job[1])


def run(tier):
    c = Check('C13', 'model_checking', tier, 'all sequences of up to %d blueprints from five kinds, all orders of five, long books and all shipped books through the real pack and unpack commands' % (6 if tier == 'thorough' else 5))
    jobs = [('orders', None), ('reused', None)] + [('long', n) for n in (50, 99, 100, 101, 257, 1000)]
    jobs += [('shipped', n) for n in books.BOOKS + ('all',)]
    for n in range(7 if c.thorough else 6):
        for first in itertools.product(range(len(ITEMS)), repeat=min(n, 2)):
            jobs.append(('sequences', (n, first)))
    kinds = [{'type': 'belt', 'input_direction': d, 'output_direction': d} for d in range(4)] + [{'type': 'underground_belt', 'direction': d, 'is_input': k} for d in range(4) for k in (True, False)]
    for a in kinds:
        for b in kinds:
            jobs.append(('encoded', [[[a, b]], [[b], [a]], [[a]]]))
    pmap(_run, jobs, c)
    c.sample('0 blueprints; 1 blueprint without label; [book, empty blueprint, blueprint with an old number 7]')
    return c.finish(['blueprint strings decode to JSON; only the number a book gives its entries is ignored when entries are compared'])
