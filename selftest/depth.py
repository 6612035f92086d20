"""Thorough tier: deeper comparison, and a measure of how sharp the comparison is.

1. Every law of the property that the plain comparison could not settle is
   compared again with all helpers looked through on both sides.
2. The same comparison is applied to edited copies of the governed functions,
   made in memory only: behaviour-preserving rewrites must not be told apart
   from the law, faults should be.  The counts go into the evidence.

Nothing is executed: the edited functions are summarised like the real ones.
"""
import random
import time

from sa.program import Func
from sa import rules
from .variants import mutants, refactors

BUDGET = 240.0
PER_FUNCTION = 60


def run(pid, program, purity, base, book, ck, seed):
    rng = random.Random(seed)
    t0 = time.time()
    deep = {'same': 0, 'unknown': 0, 'diff': 0}
    out = []
    laws = [l for l in book.laws if (pid in l.props or pid in l.facets) and l.actual is not None
            and not getattr(l.actual, 'is_law', False)]
    for law in laws:
        eff = ck.effective(law)
        if ck.own(eff)[0] == 'same':
            continue
        r = ck.raw(eff, law.actual, deep=True)
        deep[r[0]] += 1
        if r[0] == 'diff' and pid in law.props and ck.verdict(law, pid)[0] == 'unknown':
            out.append(('%s (%s)' % (law.actual.where, law.qual), r[1]))
    made = {'faults': {'same': 0, 'unknown': 0, 'diff': 0}, 'rewrites': {'same': 0, 'unknown': 0, 'diff': 0}}
    told_apart = []
    todo = [l for l in laws if ck.own(ck.effective(l))[0] == 'same' and pid in l.props]
    rng.shuffle(todo)
    looked = 0
    for law in todo:
        if time.time() - t0 > BUDGET:
            break
        looked += 1
        f = law.actual
        for what, gen in (('rewrites', refactors), ('faults', mutants)):
            edits = list(gen(f.node))
            rng.shuffle(edits)
            for label, node, helpers in edits[:PER_FUNCTION]:
                added = []
                for h in helpers:
                    is_m = f.cls is not None and h.args.args[:1] and h.args.args[0].arg == 'self'
                    hf = Func(f.module, h, f.cls if is_m else None, 'method' if is_m else 'function')
                    table = f.cls.members if is_m else f.module.functions
                    table[h.name] = hf
                    added.append((table, h.name))
                nf = Func(f.module, node, f.cls, f.kind)
                try:
                    r = ck.raw(ck.effective(law), nf)[0]
                except RecursionError:
                    r = 'unknown'
                finally:
                    for table, n in added:
                        table.pop(n, None)
                    ck.cache = {k: v for k, v in ck.cache.items() if k[0] is not nf}
                made[what][r] += 1
                if what == 'rewrites' and r == 'diff':
                    told_apart.append('%s %s' % (f.qual, label))
    return {'deep_violations': out, 'deep_comparisons': deep, 'edited_functions': looked,
            'faults_in_memory': made['faults'], 'rewrites_in_memory': made['rewrites'], 'rewrites_told_apart': told_apart[:20],
            'rules_available': len(rules.RULES)}
