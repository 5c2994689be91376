"""Writes ../MANIFEST.json: one check per property that has a module mc/cNN.py."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = 'Trusts the reference semantics in mc/ref.py and the SAT solver used to decide fully fixed instances.'
T = {
    'C01': ('joint explicit-state walk of the layout tree: real constraint model vs reference', 'All layouts of the listed small grids, all pairs/underground lines at all positions of larger grids, one-cell changes of real balancers. ' + REF),
    'C02': ('explicit enumeration of layouts x networks x end options; every printed layout traced', 'Exhaustive for the listed grid sizes; larger sizes cover every printed layout of the listed runs. ' + REF),
    'C03': ('exhaustive enumeration of the layout space, set equality with the --all output', 'Exhaustive for the listed sizes, networks and end options. ' + REF),
    'C04': ('exhaustive enumeration of solutions, exact rational flow as oracle', 'Every printed solution of the listed sizes; acceptance decided on all one-cell neighbours of real balancers. ' + REF),
    'C05': ('exhaustive enumeration of solutions, exact rational flow with the outer splitters added', 'Every printed solution of the listed sizes. ' + REF),
    'C06': ('exhaustive enumeration of solutions, each traced', 'Every printed solution of the listed sizes and options. ' + REF),
    'C07': ('exhaustive enumeration of blocks, set equality with the --all output', 'Exhaustive for the listed sizes and options. ' + REF),
    'C08': ('joint explicit-state walk of the layout tree with each rule on: real model vs pattern predicate', 'All layouts of the listed grids. ' + REF),
    'C09': ('exhaustive fault enumeration of external solver answers plus solution-set comparison over back ends', 'Every truncation point of the answers of the listed problems, every built-in solver. '),
    'C10': ('exhaustive enumeration of tiles, neighbourhoods and layouts through the real codec', 'All small layouts and all shipped balancers; the game format is restated independently. '),
    'C11': ('exhaustive enumeration of layouts through the real drawing and reading code', 'All listed small layouts and all shipped balancers. '),
    'C12': ('exhaustive enumeration of tiles and layouts under the eight symmetries', 'All listed small layouts and all shipped balancers in all eight orientations. '),
    'C13': ('exhaustive enumeration of blueprint sequences through the book tool', 'All sequences up to the listed length. '),
    'C14': ('exhaustive enumeration of layouts, the read network checked against an independent trace', 'All listed small layouts and all shipped balancers in all eight orientations. ' + REF),
    'C15': ('exhaustive enumeration of sizes, colour-class wirings and network files', 'Sizes and files up to the listed bounds; balance decided by exact rational flow. '),
    'C16': ('exhaustive enumeration of all assignments of every encoding', 'All widths and values up to the listed bounds. '),
    'C17': ('stateless model checking of the real optimiser under a controlled executor: all completion orders', 'All completion orders for all listed monotone oracles and prior databases. '),
    'C18': ('crash-point enumeration at every system call (torn writes included) and at every point of the run', 'All crash points of the listed histories. '),
    'C19': ('exhaustive enumeration of small databases through the real tools vs inference reference', 'All databases up to the listed bounds. '),
    'C20': ('exhaustive enumeration of mirror pairs of layouts on the real model', 'All layouts of the listed grids. ' + REF),
    'C21': ('exhaustive enumeration of tiles, pairs, options and key sequences through the real renderer over recording stand-ins', 'OpenGL, window and encoder are stand-ins that record what is drawn; every frame is judged. '),
    'C22': ('exhaustive enumeration of small networks and file names; the picture read back and compared', 'All networks of up to the listed number of splitters and colours; graphviz itself is trusted. '),
    'C23': ('exhaustive enumeration of small networks through the real rewriting code, exact rational flow and all numberings as oracle', 'All networks of one and two splitters, of three for simplification; belts all of different colour. '),
}
LEVEL = {'C09': 'fault_enumeration', 'C18': 'fault_enumeration'}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'mc', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd='./run.sh %s quick' % p, thorough_cmd='./run.sh %s thorough' % p,
                           technique='model checking: ' + T[p][0], level=LEVEL.get(p, 'model_checking'), level_note=T[p][1].strip()))
    else:
        na.append(dict(property=p, reason='no check yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import pysat, numpy"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
