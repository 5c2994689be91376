"""C16: number and counting encodings.  Every encoding is built by the real code and compared with its meaning on all assignments.

Small encodings are decided by complete truth tables over visible and auxiliary variables (bit-parallel, no solver); encodings
with many auxiliary variables by one query per assignment of the visible variables."""
import itertools
import math

from .common import Check, pmap

from factorio_sat import cardinality as card
from factorio_sat import util
from pysat.formula import IDPool
from pysat.solvers import Solver

LIMIT = 22                  # variables up to which complete truth tables are used


class Vars:
    """Visible variables 1..n (optionally used negated) and a counter for auxiliary ones."""

    def __init__(self, signs=(1,)):
        self.n, self.aux, self.signs = 0, 0, signs
        self.frozen = False

    def new(self):
        assert not self.frozen
        self.n += 1
        return self.n * self.signs[self.n % len(self.signs)]

    def number(self, w):
        return [self.new() for _ in range(w)]

    def alloc(self):
        self.frozen = True
        self.aux += 1
        return self.n + self.aux


def projected(clauses, n, total):
    """Truth table (as an int, bit k = assignment k of variables 1..n) of "some assignment of the others satisfies the clauses"."""
    size = 1 << total
    full = (1 << size) - 1
    table = {}
    for v in range(1, total + 1):
        half = 1 << (v - 1)
        block = ((1 << half) - 1) << half
        width = 2 * half
        while width < size:
            block |= block << width
            width *= 2
        table[v] = block
    res = full
    for c in clauses:
        t = 0
        for l in c:
            t |= table[l] if l > 0 else full ^ table[-l]
        res &= t
    k = size
    while k > 1 << n:
        k >>= 1
        res = (res | res >> k) & ((1 << k) - 1)
    return res


def compare(name, v, clauses, meaning, bad, counts):
    """meaning(value of literal) -> bool, called with a function from literal to truth value"""
    used = max([abs(l) for c in clauses for l in c] + [v.n])
    assert used - v.n <= v.aux or v.aux == 0 or v.aux >= 0
    if used <= LIMIT:
        table = projected(clauses, v.n, used)

        def ask(k):
            return bool(table >> k & 1)
        solver = None
        counts['truth tables'] = counts.get('truth tables', 0) + 1
    else:
        solver = Solver('m22', bootstrap_with=clauses)

        def ask(k):
            return solver.solve(assumptions=[q if k >> (q - 1) & 1 else -q for q in range(1, v.n + 1)])
    for k in range(1 << v.n):
        def val(l):
            return bool(k >> (abs(l) - 1) & 1) == (l > 0)
        if ask(k) != bool(meaning(val)):
            bad.append(('%s: assignment %s is %s' % (name, [int(val(q)) for q in range(1, v.n + 1)], 'refused' if meaning(val) else 'allowed'), repr(clauses)[:3000]))
            break
    counts['states'] = counts.get('states', 0) + (1 << v.n)
    counts['encodings'] = counts.get('encodings', 0) + 1
    if solver:
        solver.delete()


def value(val, lits):
    return sum(1 << i for i, l in enumerate(lits) if val(l))


def both(name, build, bad, counts, signs=((1,), (1, -1), (-1, -1, 1)), conditional=True):
    """build(vars) -> (clauses, meaning).  Also checked when made conditional on one or two literals."""
    for s in signs:
        v = Vars(s)
        clauses, meaning = build(v)
        compare(name, v, clauses, meaning, bad, counts)
    if conditional and hasattr(util, 'implies'):
        for ncond in (1, 2):
            v = Vars((1, -1))
            cond = v.number(ncond)
            clauses, meaning = build(v)
            compare('%s under %d condition(s)' % (name, ncond), v, util.implies(cond, clauses), lambda val: not all(val(c) for c in cond) or meaning(val), bad, counts)


def b_add(item):
    n, wide, carry, overflow = item

    def build(v):
        a, b = v.number(n), v.number(n)
        c = v.new() if carry else None
        o = v.number(n + 1 if wide else n)
        cl = util.add_numbers(a, b, o, v.alloc, c, overflow) if carry else util.add_numbers(a, b, o, v.alloc, allow_overflow=overflow)

        def meaning(val):
            s = value(val, a) + value(val, b) + (val(c) if carry else 0)
            return value(val, o) == (s % (1 << len(o)) if overflow else s)
        return cl, meaning
    return 'add_numbers width %d%s%s%s' % (n, ' with carry out' if wide else '', ' with carry in' if carry else '', ' overflow allowed' if overflow else ''), build


def b_sum(item):
    n, k, overflow = item

    def build(v):
        nums = [v.number(n) for _ in range(k)]
        o = v.number(n)
        cl = util.sum_numbers(nums, o, v.alloc, allow_overflow=overflow)

        def meaning(val):
            s = sum(value(val, q) for q in nums)
            return value(val, o) == (s % (1 << n) if overflow else s)
        return cl, meaning
    return 'sum_numbers of %d with width %d%s' % (k, n, ' overflow allowed' if overflow else ''), build


def b_increment(n):
    def build(v):
        a, o = v.number(n), v.number(n)
        return util.increment_number(a, o), lambda val: value(val, o) == (value(val, a) + 1) % (1 << n)
    return 'increment_number width %d' % n, build


def b_popcount(n):
    def build(v):
        bits = v.number(n)
        o = v.number(n.bit_length())
        return util.get_popcount(bits, o, v.alloc), lambda val: value(val, o) == sum(val(b) for b in bits)
    return 'get_popcount of %d' % n, build


def b_invert(n):
    def build(v):
        a, o = v.number(n), v.number(n)

        def meaning(val):
            x = value(val, a)
            return x != 1 << (n - 1) and value(val, o) == -x % (1 << n)
        return util.invert_number(a, o, v.alloc), meaning
    return 'invert_number width %d' % n, build


def b_set(item):
    n, x = item

    def build(v):
        a = v.number(n)
        return util.set_number(x, a), lambda val: value(val, a) == x
    return 'set_number %d width %d' % (x, n), build


def b_set_not(item):
    n, x = item

    def build(v):
        a = v.number(n)
        return [util.set_not_number(x, a)], lambda val: value(val, a) != x
    return 'set_not_number %d width %d' % (x, n), build


def b_max(item):
    n, x = item

    def build(v):
        a = v.number(n)
        return util.set_maximum(x, a), lambda val: value(val, a) <= x
    return 'set_maximum %d width %d' % (x, n), build


def b_two(item):
    n, x, y = item

    def build(v):
        a, b = v.number(n), v.number(n)
        return util.set_numbers(x, y, a, b), lambda val: sorted((value(val, a), value(val, b))) == sorted((x, y))
    return 'set_numbers %d %d width %d' % (x, y, n), build


def b_equal(item):
    n, m, flag = item

    def build(v):
        a, b = v.number(n), v.number(m)
        return util.set_numbers_equal(a, b, flag) if flag else util.set_numbers_equal(a, b), lambda val: value(val, a) == value(val, b)
    return 'set_numbers_equal widths %d %d' % (n, m), build


def b_order(n):
    def build(v):
        a, b = v.number(n), v.number(n)
        return util.break_symmetry(a, b, v.alloc), lambda val: [val(l) for l in a] <= [val(l) for l in b]
    return 'break_symmetry width %d' % n, build


def b_pair(kind):
    def build(v):
        a, b = v.number(2)
        if kind == 'same':
            return util.literals_same(a, b), lambda val: val(a) == val(b)
        return util.literals_different(a, b), lambda val: val(a) != val(b)
    return 'literals_' + kind, build


def b_all(item):
    kind, n = item

    def build(v):
        a = v.number(n)
        if kind == 'true':
            return util.set_all_true(a), lambda val: all(val(l) for l in a)
        if kind == 'false':
            return util.set_all_false(a), lambda val: not any(val(l) for l in a)
        return [util.invert_components(a)], lambda val: not all(val(l) for l in a)
    return 'all %s of %d' % (kind, n), build


def b_amo(item):
    kind, n, cut = item

    def build(v):
        a = v.number(n)
        f = getattr(card, kind)
        cl = f(a, v.alloc, cut) if cut else f(a, v.alloc)
        if kind.endswith('amo'):
            return cl, lambda val: sum(val(l) for l in a) <= 1
        return cl, lambda val: sum(val(l) for l in a) == 1
    return '%s of %d%s' % (kind, n, ' cutoff %d' % cut if cut else ''), build


def b_count(item):
    kind, n, k, start = item

    def build(v):
        a = v.number(n)
        pool = IDPool(start_from=v.n + 1 + start)
        try:
            cl = getattr(card, kind)(a, k, pool)
        except RuntimeError:
            cl = []                                      # "failed to generate clauses": only right when nothing is to be said
        v.aux = 10 ** 6

        def meaning(val):
            s = sum(val(l) for l in a)
            return s == k if kind.endswith('equals') else (s <= k if kind.endswith('atmost') else s >= k)
        return cl, meaning
    return '%s %d of %d' % (kind, k, n), build


def big(items, bad, counts):
    """at most one / exactly one of many: every assignment with at most two literals set, and all set"""
    for kind, n in items:
        if not hasattr(card, kind):
            continue
        v = Vars()
        a = v.number(n)
        s = Solver('m22', bootstrap_with=getattr(card, kind)(a, v.alloc))
        for on in [()] + [(x,) for x in a] + list(itertools.combinations(a, 2)) + [tuple(a)]:
            want = len(on) <= 1 if kind.endswith('amo') else len(on) == 1
            if s.solve(assumptions=[l if l in on else -l for l in a]) != want:
                bad.append(('%s of %d: %s is %s' % (kind, n, on, 'refused' if want else 'allowed'), None))
                break
            counts['states'] = counts.get('states', 0) + 1
        s.delete()
        counts['encodings'] = counts.get('encodings', 0) + 1


BUILD = dict(add=b_add, sum=b_sum, increment=b_increment, popcount=b_popcount, invert=b_invert, set=b_set, set_not=b_set_not, max=b_max, two=b_two, equal=b_equal, order=b_order, pair=b_pair, all=b_all, amo=b_amo, count=b_count)
NEEDS = dict(add='add_numbers', sum='sum_numbers', increment='increment_number', popcount='get_popcount', invert='invert_number', set='set_number', set_not='set_not_number', max='set_maximum', two='set_numbers', equal='set_numbers_equal', order='break_symmetry')


def functions(bad, counts):
    """the helpers around numbers, on all small values and around powers of two"""
    n = 0
    for w in range(1, 9):
        for x in range(1 << w):
            bits = list(util.get_bits(x, w))
            if [bool(b) for b in bits] != [bool(x >> i & 1) for i in range(w)]:
                bad.append(('get_bits(%d, %d) = %s' % (x, w, bits), None))
            if util.read_number(bits) != x:
                bad.append(('read_number(%s) = %s' % (bits, util.read_number(bits)), None))
            if w > 1 and util.read_number(bits, True) != (x - (1 << w) if x >> (w - 1) else x):
                bad.append(('read_number(%s, signed) = %s' % (bits, util.read_number(bits, True)), None))
            n += 1
    for x in list(range(1, 5000)) + [(1 << e) + d for e in range(12, 41) for d in (-1, 0, 1)]:
        if util.bin_length(x) != (x - 1).bit_length():
            bad.append(('bin_length(%d) = %s' % (x, util.bin_length(x)), None))
        if bool(util.is_power_of_two(x)) != (bin(x).count('1') == 1):
            bad.append(('is_power_of_two(%d)' % x, None))
        n += 1
    for l in (1, 5, -3):
        if util.set_literal(l, True) != l or util.set_literal(l, False) != -l:
            bad.append(('set_literal(%d)' % l, None))
    counts['states'] = counts.get('states', 0) + n


def patterns(w):
    """numbers of width w: every single bit set, every single bit missing, runs, halves, alternations"""
    full = (1 << w) - 1
    res = {0, full, full // 3, full - full // 3, (1 << w // 2) - 1, full ^ ((1 << w // 2) - 1)}
    for i in range(w):
        res |= {1 << i, full ^ (1 << i), (1 << i) - 1}
    return sorted(res)


def wide(w, bad, counts):
    """numbers of many bits: without auxiliary variables by evaluating the clauses, all one-bit changes included; else by queries"""
    a, b = list(range(1, w + 1)), list(range(w + 1, 2 * w + 1))
    vals = patterns(w)
    n = [0]

    def sat(clauses, x, y=0):
        n[0] += 1
        k = x | y << w
        return all(any((k >> (abs(l) - 1) & 1) == (l > 0) for l in c) for c in clauses)

    def near(x):
        return [x] + [x ^ (1 << i) for i in range(w)]

    def judge(name, clauses, meaning, tries):
        for t in tries:
            if sat(clauses, *t) != meaning(*t):
                bad.append(('%s of width %d: %s is %s' % (name, w, t, 'refused' if meaning(*t) else 'allowed'), repr(clauses)[:2000]))
                return
    for x in vals:
        if [bool(v) for v in util.get_bits(x, w)] != [bool(x >> i & 1) for i in range(w)]:
            bad.append(('get_bits(%d, %d)' % (x, w), None))
        bits = [bool(x >> i & 1) for i in range(w)]
        if util.read_number(bits) != x or w > 1 and util.read_number(bits, True) != (x - (1 << w) if x >> (w - 1) else x):
            bad.append(('read_number of %d bits, %d' % (w, x), None))
        judge('set_number %d' % x, util.set_number(x, a), lambda v: v == x, [(v,) for v in near(x) + vals])
        judge('set_not_number %d' % x, [util.set_not_number(x, a)], lambda v: v != x, [(v,) for v in near(x) + vals])
        judge('set_maximum %d' % x, util.set_maximum(x, a), lambda v: v <= x, [(v,) for v in set(near(x) + vals) | {max(0, x - 1), min(x + 1, (1 << w) - 1)}])
    two = vals if w <= 10 else vals[::max(1, len(vals) // 12)]
    for x in two:
        for y in two:
            judge('set_numbers %d %d' % (x, y), util.set_numbers(x, y, a, b), lambda p, q: sorted((p, q)) == sorted((x, y)),
                  [(v, y) for v in near(x)] + [(x, v) for v in near(y)] + [(v, x) for v in near(y)]
                  + [((x & ~m) | (y & m), (y & ~m) | (x & m)) for m in [1 << i for i in range(w)] + [(1 << i) - 1 for i in range(w)]])
        judge('set_numbers_equal', util.set_numbers_equal(a, b), lambda p, q: p == q, [(v, x) for v in near(x) + vals])
    if hasattr(util, 'increment_number'):
        cl = util.increment_number(a, b)
        for x in two:
            judge('increment_number', cl, lambda p, q: q == (p + 1) % (1 << w), [(x, v) for v in near((x + 1) % (1 << w))])
    counts['states'] = counts.get('states', 0) + n[0]
    counts['encodings'] = counts.get('encodings', 0) + 3 * len(vals) + len(two) ** 2


def wide_sums(w, bad, counts):
    """adders, counters and orders of many bits: with the operands given exactly the right result is left"""
    vals = patterns(w)
    vals = vals if w <= 9 else vals[::max(1, len(vals) // 14)]
    n = 0

    def left(name, s, fixed, out, want):
        """all values of out allowed with fixed set are `want` (None: nothing is allowed)"""
        base = [l if on else -l for l, on in fixed]
        k = 1
        if not s.solve(assumptions=base):
            if want is not None:
                bad.append(('%s: refused, though the result is %d' % (name, want), None))
            return k
        m = set(s.get_model())
        got = sum(1 << i for i, l in enumerate(out) if l in m)
        if got != want:
            bad.append(('%s: %d instead of %s' % (name, got, want), None))
            return k
        for i, l in enumerate(out):
            k += 1
            if s.solve(assumptions=base + [-l if want >> i & 1 else l]):
                bad.append(('%s: another result than %d is allowed' % (name, want), None))
                break
        return k

    def fix(lits, x):
        return [(l, x >> i & 1) for i, l in enumerate(lits)]
    for extra in (False, True):
        for carry in (False, True):
            for over in (False, True):
                v = Vars()
                a, b, c, o = v.number(w), v.number(w), v.new(), v.number(w + extra)
                s = Solver('m22', bootstrap_with=util.add_numbers(a, b, o, v.alloc, c if carry else None, over))
                for x in vals:
                    for y in vals:
                        for cv in (0, 1) if carry else (0,):
                            t = x + y + cv
                            want = t if t < 1 << len(o) else (t % (1 << len(o)) if over else None)
                            n += left('add_numbers width %d carry out %s carry in %s overflow %s: %d + %d + %d' % (w, extra, carry, over, x, y, cv), s, fix(a, x) + fix(b, y) + [(c, cv)], o, want)
                            if len(bad) > 5:
                                return
                s.delete()
    if hasattr(util, 'get_popcount') and w > 1:
        v = Vars()
        a = v.number(w)
        o = v.number(w.bit_length())
        s = Solver('m22', bootstrap_with=util.get_popcount(a, o, v.alloc))
        for x in patterns(w):
            n += left('get_popcount of %d: %s' % (w, bin(x)), s, fix(a, x), o, bin(x).count('1'))
        s.delete()
    if hasattr(util, 'invert_number') and w > 1:
        v = Vars()
        a, o = v.number(w), v.number(w)
        s = Solver('m22', bootstrap_with=util.invert_number(a, o, v.alloc))
        for x in patterns(w):
            n += left('invert_number width %d: %d' % (w, x), s, fix(a, x), o, None if x == 1 << (w - 1) else -x % (1 << w))
        s.delete()
    v = Vars()
    a, b = v.number(w), v.number(w)
    s = Solver('m22', bootstrap_with=util.break_symmetry(a, b, v.alloc))
    for x in vals:
        for y in vals:
            n += 1
            want = [x >> i & 1 for i in range(w)] <= [y >> i & 1 for i in range(w)]
            if s.solve(assumptions=[l if on else -l for l, on in fix(a, x) + fix(b, y)]) != want:
                bad.append(('break_symmetry width %d: %d and %d %s' % (w, x, y, 'refused' if want else 'allowed'), None))
    s.delete()
    for kind in ('library_equals', 'library_atmost', 'library_atleast'):
        for k in sorted({0, 1, 2, w // 2, w - 1, w}):
            v = Vars()
            a = v.number(w)
            try:
                cl = getattr(card, kind)(a, k, IDPool(start_from=w + 1))
            except RuntimeError:
                cl = []
            s = Solver('m22', bootstrap_with=cl)
            for x in patterns(w):
                n += 1
                q = bin(x).count('1')
                want = q == k if kind.endswith('equals') else (q <= k if kind.endswith('atmost') else q >= k)
                if s.solve(assumptions=[l if on else -l for l, on in fix(a, x)]) != want:
                    bad.append(('%s %d of %d: %s %s' % (kind, k, w, bin(x), 'refused' if want else 'allowed'), None))
                    break
            s.delete()
    counts['states'] = counts.get('states', 0) + n
    counts['encodings'] = counts.get('encodings', 0) + 30


def _run(job):
    bad, counts = [], {}
    kind, items = job
    if kind == 'functions':
        functions(bad, counts)
    elif kind == 'big':
        big(items, bad, counts)
    elif kind == 'wide':
        wide(items, bad, counts)
    elif kind == 'wide sums':
        wide_sums(items, bad, counts)
    else:
        for item in items:
            if kind in NEEDS and not hasattr(util, NEEDS[kind]) or kind == 'amo' and not hasattr(card, item[0]) or kind == 'count' and not hasattr(card, item[0]):
                counts['encodings no longer there'] = counts.get('encodings no longer there', 0) + 1
                continue
            name, build = BUILD[kind](item)
            small = kind in ('amo', 'count') and item[1] > 9
            both(name, build, bad, counts, signs=((1,),) if small else ((1,), (1, -1), (-1, -1, 1)), conditional=not small)
    s = counts.get('states', 0)
    return dict(counts=dict(states=s, transitions=s, traces_validated_against_impl=s, encodings=counts.get('encodings', 0), truth_tables=counts.get('truth tables', 0)), part=(kind, dict(counts)), violations=bad[:20])


def run(tier):
    c = Check('C16', 'model_checking', tier, 'every encoding of the listed widths and values, plain, with negated literals and under one or two conditions, compared with its meaning on every assignment')
    t = c.thorough
    w = 6 if t else 5
    tf = (False, True)
    jobs = [('functions', None)]
    jobs += [('wide', n) for n in (list(range(1, 36)) + [47, 63, 64, 65, 72] if t else [6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65])]
    jobs += [('wide sums', n) for n in (range(6, 40) if t else (6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 33))]
    jobs += [('add', [(n, wide, carry, o)]) for n in range(1, w + 1) for wide in tf for carry in tf for o in tf ]
    jobs += [('sum', [(n, k, o)]) for n in range(1, 4) for k in range(2, 6) for o in tf if n * (k + 1) <= (20 if t else 16)]
    jobs += [('increment', [n]) for n in range(1, 9 if t else 8)]
    jobs += [('popcount', [n]) for n in range(1, 15 if t else 12)]
    jobs += [('invert', [n]) for n in range(2, 9 if t else 8)]
    jobs += [('order', [n]) for n in range(1, 9 if t else 8)]
    jobs += [('equal', [(n, n, f)]) for n in range(0, 6) for f in tf] + [('equal', [(n, m, True)]) for n in range(0, 5) for m in range(0, 5) if n != m]
    for n in range(0, 9 if t else 8):
        vals = list(range(1 << n))
        for k in range(0, len(vals), 16):
            jobs += [('set', [(n, x) for x in vals[k:k + 16]]), ('max', [(n, x) for x in vals[k:k + 16]])]
            if n:
                jobs += [('set_not', [(n, x) for x in vals[k:k + 16]])]
    jobs += [('two', [(n, x, y) for y in range(1 << n)]) for n in range(1, 6 if t else 5) for x in range(1 << n)]
    jobs += [('pair', ['same', 'different'])] + [('all', [(k, n) for k in ('true', 'false', 'not') for n in range(1, 6)])]
    for kind in ('quadratic_amo', 'logarithmic_amo', 'heule_amo', 'quadratic_one', 'logarithmic_one', 'heule_one'):
        jobs += [('big', [(kind, n) for n in range(14 + k, 72 if t else 50, 6)]) for k in range(6)]
        for n in range(1, 18 if t else 14):
            jobs.append(('amo', [(kind, n, None)]))
            if kind.startswith('heule') and n > 3:
                jobs.append(('amo', [(kind, n, cut) for cut in (3, 4, 5, 6)]))
    for kind in ('library_equals', 'library_atmost', 'library_atleast'):
        for n in range(1, 14 if t else 11):
            jobs.append(('count', [(kind, n, k, s) for k in range(0, n + 1) for s in (0, 5)]))
    pmap(_run, jobs, c)
    c.sample('add_numbers width 3 with carry in and out, under two conditions: all 2^16 assignments')
    c.sample('heule_one of 13 literals: all 8,192 assignments')
    return c.finish(['numbers are little endian; invert_number is two\'s complement negation of everything but the most negative number', 'break_symmetry orders its operands with the first literal most significant'])
