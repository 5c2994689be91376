"""Reference for the pruning rules: each rule is a set of pictures, given once and closed under the symmetries of the square.

A picture maps a cell offset to conditions on what stands there.  Nothing here imports the code under test.
"""
import itertools

from .ref import E, VEC, emits, takes

R, U, L, D = range(4)

# conditions: ('kind', 'B'|'E'|'S'|'I'|'O'), ('not', kind), ('in', d) / ('noin', d) / ('out', d),
#             ('half', bool): splitter half is the head / tail, ('ug', d) / ('noug', d): an underground travelling d passes below


def cells_of(g, rules):
    """[signals] for every way the splitter halves at open edges may be connected to the outside.
    signals: cell -> (kind, in, out, head, covered directions)"""
    cover = {c: set() for c in g}
    for (x, y), t in g.items():
        if t[0] == 'U':
            d = t[1]
            step = d if t[2] else (d + 2) % 4
            n = rules.nb[x, y, step]
            while n is not None and not (g[n][0] == 'U' and g[n][1] % 2 == d % 2):
                cover[n].add(d)
                n = rules.nb[n[0], n[1], step]
    base = {}
    free = []
    for (x, y), t in g.items():
        if t[0] == 'S':
            d = t[1]
            con = []
            for side, step in (('in', (d + 2) % 4), ('out', d)):
                n = rules.nb[x, y, step]
                if n is None:
                    con.append(None if not rules.belt_block[rules.edge(step)] else False)
                else:
                    b = g[n]
                    con.append(b[1] == d if b[0] == 'S' else (emits(b) if side == 'in' else takes(b)) == d)
            opts = [(i, o) for i in ((False, True) if con[0] is None else (con[0],)) for o in ((False, True) if con[1] is None else (con[1],)) if i or o]
            base[x, y] = [('S', d if i else None, d if o else None, t[2], cover[x, y]) for i, o in opts]
            if len(opts) > 1:
                free.append((x, y))
        elif t[0] == 'B':
            base[x, y] = [('B', t[1], t[2], None, cover[x, y])]
        elif t[0] == 'U':
            base[x, y] = [('I', t[1], None, None, cover[x, y]) if t[2] else ('O', None, t[1], None, cover[x, y])]
        else:
            base[x, y] = [('E', None, None, None, cover[x, y])]
    for choice in itertools.product(*(range(len(base[c])) for c in free)):
        s = {c: v[0] for c, v in base.items()}
        for c, k in zip(free, choice):
            s[c] = base[c][k]
        yield s


def holds(cond, sig):
    for what, arg in cond:
        if what == 'kind':
            ok = sig[0] == arg
        elif what == 'not':
            ok = sig[0] != arg
        elif what == 'in':
            ok = sig[1] == arg
        elif what == 'noin':
            ok = sig[1] != arg
        elif what == 'out':
            ok = sig[2] == arg
        elif what == 'half':
            ok = sig[0] == 'S' and sig[3] == arg
        elif what == 'ug':
            ok = arg in sig[4]
        elif what == 'noug':
            ok = arg not in sig[4]
        else:
            raise ValueError(what)
        if not ok:
            return False
    return True


# -- pictures ----------------------------------------------------------------------------------------------------

def turn_picture(pic, quarter, mirror):
    """mirror (up <-> down) first, then quarter turns counter-clockwise"""
    res = {}
    for (x, y), cond in pic.items():
        new = []
        for what, a in cond:
            if what in ('in', 'noin', 'out', 'ug', 'noug'):
                if mirror:
                    a = (4 - a) % 4
                a = (a + quarter) % 4
            elif what == 'half' and mirror:
                a = not a
            new.append((what, a))
        if mirror:
            y = -y
        for _ in range(quarter):
            x, y = y, -x
        res[x, y] = tuple(sorted(new, key=repr))
    return res


def closure(pics):
    seen = {}
    for p in pics:
        for m in (False, True):
            for q in range(4):
                t = turn_picture(p, q, m)
                seen[tuple(sorted(t.items(), key=repr))] = (t, q, m)
    return [v[0] for v in seen.values()]


def belt(i, o):
    return (('kind', 'B'), ('in', i), ('out', o))


# Written for a travel direction to the right (R); up is -y.
SMALL_LOOP = [{(0, 0): belt(U, R), (1, 0): belt(R, D), (1, 1): belt(D, L), (0, 1): belt(L, U)}]

# splitter travelling right, head at (0, 0), tail above it
GLUE = [{(0, 0): (('kind', 'S'), ('half', True), ('in', R)), (-1, 0): belt(R, R), (-1, -1): belt(R, R)}]

GLUE_PARTIAL = [
    {(0, 0): (('kind', 'S'), ('half', True), ('in', R)), (0, -1): (('noin', R),), (1, 0): belt(R, R), (1, -1): belt(R, R)},
    {(0, 0): (('noin', R),), (0, -1): (('kind', 'S'), ('half', False), ('in', R)), (1, 0): belt(R, R), (1, -1): belt(R, R)},
]

HOOK = [{(0, 0): (('kind', 'B'), ('in', i), ('out', R)), (1, 0): (('out', U),), (1, -1): (('out', L),), (0, -1): (('kind', 'B'), ('out', o))}
        for i in (R, U) for o in (U, L)]

SEMICIRCLE = [{
    (0, 0): (('in', i),) + ((('not', 'S'),) if i == U else ()),
    (1, 0): (('kind', 'E'),),
    (2, 0): (('in', D), ('out', o)) + ((('not', 'S'),) if o == D else ()),
    (0, -1): (('in', U),), (1, -1): (('in', R), ('not', 'S')), (2, -1): (('in', R),),
} for i in (R, U) for o in (D, R)]

UG_HOOK = [{(1, 0): (('kind', 'E'), ('ug', R)), (0, 0): (('noug', R),), (-1, 0): (('in', U),), (-1, 1): (('in', L),), (0, 1): (('in', i), ('not', 'S'))} for i in (L, U)] + \
          [{(1, 0): (('kind', 'E'), ('ug', L)), (0, 0): (('noug', L),), (-1, 0): (('out', D),), (-1, 1): (('out', R),), (0, 1): (('out', o), ('not', 'S'))} for o in (R, D)]

ZIGZAG = [{(0, 0): (('in', R), ('out', U)), (1, 0): (('kind', 'E'),), (0, -1): (('out', R),), (1, -1): (('out', U),)}]

BESIDE_SPLITTER = [{(0, 0): (('in', i), ('out', R)) + ((('not', 'S'),) if i == R else ()), (0, -1): (('out', U),), (1, -1): (('half', True),)} for i in (R, U)]


def spanning_empty(limit):
    """an underground from entrance to exit with nothing above it"""
    pics = []
    for n in range(1, limit + 1):
        p = {(0, 0): (('kind', 'I'), ('in', R)), (n + 1, 0): (('kind', 'O'), ('out', R))}
        for k in range(1, n + 1):
            p[k, 0] = (('kind', 'E'),)
        pics.append(p)
    return pics


def expandable(limit, span):
    """a straight belt right before (behind) an underground that could still be longer"""
    pics = []
    if limit is None:
        return [{(0, 0): belt(R, R), (1, 0): (('kind', 'I'), ('in', R))}, {(0, 0): (('kind', 'O'), ('out', R)), (1, 0): belt(R, R)}]
    for n in range(1, min(limit - 1, span) + 1):
        for front in (True, False):
            o = 1 if front else 0
            p = {(o, 0): (('kind', 'I'), ('in', R)), (o + n + 1, 0): (('kind', 'O'), ('out', R))}
            for k in range(1, n + 1):
                p[o + k, 0] = (('ug', R),)
            p[(0, 0) if front else (n + 2, 0)] = belt(R, R)
            pics.append(p)
    return pics


def mergeable(limit):
    """an exit followed at once by an entrance, both undergrounds together short enough to be one"""
    pics = []
    for a in range(1, limit):
        for b in range(1, limit):
            if a + b + 2 <= limit:
                p = {(0, 0): (('kind', 'I'), ('in', R)), (a + 1, 0): (('kind', 'O'), ('out', R)), (a + 2, 0): (('kind', 'I'), ('in', R)), (a + b + 3, 0): (('kind', 'O'), ('out', R))}
                for k in list(range(1, a + 1)) + list(range(a + 3, a + b + 3)):
                    p[k, 0] = (('ug', R),)
                pics.append(p)
    return pics


class Rule:
    """region: (min_x, min_y, max_x, max_y) all pattern cells must lie in; exempt: cells of the picture -> True if not meant"""

    def __init__(self, name, pics, region=None, exempt=None):
        self.name, self.region, self.exempt = name, region, exempt
        self.pics = closure(pics)
        # start each picture at its most selective cell
        self.prepared = []
        for p in self.pics:
            items = sorted(p.items(), key=lambda kv: -len(kv[1]))
            (ax, ay), cond = items[0]
            self.prepared.append(((ax, ay), cond, [((x - ax, y - ay), c) for (x, y), c in items[1:]], p))

    def matches(self, sig, rules):
        w, h = rules.w, rules.h
        for (x, y), s in sig.items():
            for (ax, ay), cond, rest, pic in self.prepared:
                if not holds(cond, s):
                    continue
                ok = True
                for (dx, dy), c in rest:
                    px, py = x + dx, y + dy
                    if rules.wrap[0] and self.wraps:
                        px %= w
                    if rules.wrap[1] and self.wraps:
                        py %= h
                    q = sig.get((px, py))
                    if q is None or not holds(c, q):
                        ok = False
                        break
                if not ok:
                    continue
                if self.region is not None:
                    x0, y0, x1, y1 = self.region
                    if not all(x0 <= x + dx <= x1 and y0 <= y + dy <= y1 for (dx, dy), _ in [((0, 0), None)] + rest):
                        continue
                if self.exempt is not None and self.exempt(pic, x - ax, y - ay):
                    continue
                return True
        return False

    wraps = True


def make(name, w, h, limit, region=None):
    span = max(w, h)
    lim = span if limit is None else limit
    if name == 'prevent_small_loops':
        r = Rule(name, SMALL_LOOP)
        r.wraps = False
    elif name == 'prevent_empty_along_underground':
        r = Rule(name, spanning_empty(min(lim, span)))
    elif name == 'glue_splitters':
        # a splitter travelling right in the second or last but one column belongs to the ends
        r = Rule(name, GLUE, exempt=lambda pic, x, y: (('in', R) in pic[0, 0] and x in (1, w - 2)))
    elif name == 'glue_partial_splitters':
        r = Rule(name, GLUE_PARTIAL, region=(0, 0, w - 2, h - 1))
    elif name == 'expand_underground':
        r = Rule(name, expandable(limit, span), region=region)
    elif name == 'prevent_mergeable_underground':
        r = Rule(name, mergeable(min(lim, span)))
    else:
        r = Rule(name, {'prevent_belt_hooks': HOOK, 'prevent_semicircles': SEMICIRCLE, 'prevent_underground_hook': UG_HOOK, 'prevent_zigzags': ZIGZAG,
                        'prevent_belt_parallel_splitter': BESIDE_SPLITTER}[name])
    return r


GENERIC = ('prevent_small_loops', 'prevent_empty_along_underground', 'glue_splitters', 'prevent_belt_hooks', 'prevent_mergeable_underground', 'prevent_semicircles',
           'prevent_underground_hook', 'prevent_zigzags', 'prevent_belt_parallel_splitter', 'glue_partial_splitters')
ALL = GENERIC + ('expand_underground',)


def excluded(g, rules, rule_list):
    """True if every reading of the layout matches one of the rules"""
    return all(any(r.matches(s, rules) for r in rule_list) for s in cells_of(g, rules))


def matched(g, rules, rule_list):
    """(names of the rules matching in every reading, are all others avoidable together?)"""
    per = []
    for s in cells_of(g, rules):
        per.append(frozenset(r.name for r in rule_list if r.matches(s, rules)))
    always = frozenset.intersection(*per)
    return always, any(p <= always for p in per)
