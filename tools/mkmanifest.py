"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW = 'gated value-flow summaries of the source compared with law texts (value numbering, canonical terms)'
TECH = {
    'C01': FLOW + '; class-table and per-path super() call queries',
    'C02': FLOW + '; who-writes query over attribute stores',
    'C03': FLOW + '; who-writes query over history tables, ordering of effects',
    'C04': FLOW + '; must-invalidate reachability over the class table',
    'C06': FLOW + '; must-reset query over tallies',
    'C07': FLOW + '; who-writes query over accounts and available money',
    'C08': FLOW + '; must-undo query over tallies and bookings',
    'C12': FLOW + '; escape analysis of returned tables',
    'C14': 'interprocedural mod/ref (purity) and escape analysis of every query',
    'C15': FLOW + '; who-writes query over relations',
    'C16': FLOW + ' restricted to refusals; effects-before-raise path analysis',
    'C17': FLOW + ' restricted to conversions; constructor forwarding lint',
    'C19': FLOW + '; shared-mutable-state lint (defaults, class and module tables)',
    'C20': 'source lint for ambient inputs, object identities and set order; ' + FLOW,
    'C21': FLOW + '; cross-check of builder tables with constructors and settings',
    'C22': FLOW + '; registry uniqueness and default-name check',
    'C24': FLOW + '; shape check of constant tables',
    'C25': FLOW + '; shape check of constant tables',
    'C26': FLOW + '; declared-name check',
    'C30': FLOW + '; shape check of constant tables and jurisdiction keys',
}
NA = {
    'C40': 'optimality over all flow networks is a property of the result of an algorithm (networkx min-cost flow on rounded integer capacities), not of the shape of the code around it; no sound static argument in reach bounds it. The construction of the network (which edges, capacities and weights) is decided under C28.',
    'C41': 'the running sums of an arbitrary schedule of inflows and outflows are runtime quantities; deciding that the inferred timing never overdraws them needs an inductive numeric proof or a solver, which is a different family. The one-step update rules are compared with their law under C27.',
    'C42': 'that one formula is the inverse of another is an algebraic fact over exponentials and logarithms for all rates; it needs symbolic algebra or proof, not program analysis. Each formula is pinned to its law under C11.',
    'C43': 'round-trip equality runs through the JSON library, number formatting and a user-supplied serialiser; the values are runtime quantities. The reading and writing operations themselves are decided under C26.',
    'C44': 'a quantitative bound on accumulated rounding over arbitrary horizons needs numeric error analysis of runtime magnitudes.',
}
NOTE = ('Decides the named structure of every anchored operation for all inputs: each governed function equals its law text up to the '
        'equivalences the normaliser proves (renaming, helper boundaries, loop/comprehension form, statement order of independent '
        'effects, real arithmetic). Law texts are reviewed statements, not proofs; arithmetic is over exact reals; places where two '
        'summaries could be neither matched nor told apart are listed as not_decided in the evidence and raise no alarm.')

checks, na = [], []
with open(os.path.join(ROOT, 'properties.jsonl')) as fh:
    for line in fh:
        p = json.loads(line)
        pid = p['id']
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
            continue
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': TECH.get(pid, FLOW), 'level': 'other', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"',
     'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: nothing under /repo is imported or executed, and nothing needs building. No hooks. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
print(len(checks), len(na))
