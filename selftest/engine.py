"""How well does the comparison separate refactorings from behaviour changes?

Compares each function of a tree with edited copies of itself.  Prints the
share of 'same/unknown/diff' per kind of edit; a refactoring that gets 'diff'
is printed in full.
"""
import ast
import os
import sys
import copy
import collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program, Func
from sa.flow import Evaluator, Purity
from sa import compare as C, baseline
from sa.laws import Checker, LawBook
from selftest.variants import mutants, refactors


def main():
    repo = os.environ.get('REPO', '/repo')
    p = Program(repo)
    bl = baseline.load()
    vocab = C.Vocab(bl['names'], bl['functions'])
    vocab.precisely = bool(os.environ.get("PREC"))
    pu = Purity(p)
    ck = Checker(p, pu, bl, LawBook())
    pats = sys.argv[2:]
    mode = sys.argv[1]
    tot = collections.Counter()
    bykind = collections.defaultdict(collections.Counter)
    for f in sorted(p.all_functions(), key=lambda f: f.qual):
        if pats and not any(x in f.qual for x in pats):
            continue

        def summ(func):
            ev = Evaluator(p, purity=pu, baseline=bl['functions'], deep=bool(os.environ.get('DEEP')),
                           strip_precision=not os.environ.get('PREC'))
            ev.optional = ck.optional(f)
            return C.Facts(ev.run(func, f.cls))
        try:
            base = summ(f)
        except RecursionError:
            print('REC', f.qual)
            continue
        for label, node, helpers in (mutants if mode == 'mut' else refactors)(f.node):
            added = []
            for h in helpers:
                hf = Func(f.module, h, f.cls if h.args.args[:1] and h.args.args[0].arg == 'self' else None)
                if hf.cls is not None:
                    hf.kind = 'method'
                    f.cls.members[h.name] = hf
                    added.append((f.cls.members, h.name))
                else:
                    f.module.functions[h.name] = hf
                    added.append((f.module.functions, h.name))
            nf = Func(f.module, node, f.cls, f.kind)
            try:
                v = summ(nf)
                r1, w1 = C.cmp_terms(v.ret, base.ret, vocab)
                r2, w2 = C.cmp_events(v, base, vocab)
                od = C.absent_diff(v, base, vocab) if 'diff' not in (r1, r2) else None
                if not od and r1 == r2 == 'same':
                    od = C.order_diff(v, base, pu, f.cls)
                r = 'diff' if 'diff' in (r1, r2) or od else 'unknown' if 'unknown' in (r1, r2) else 'same'
            except RecursionError:
                r, w1, w2 = 'rec', None, None
            finally:
                for d, n in added:
                    d.pop(n, None)
            tot[r] += 1
            bykind[label.split(':')[0]][r] += 1
            show = (mode == 'ref' and r == 'diff') or (mode == 'mut' and r != 'diff' and os.environ.get('SHOW')) or (mode == 'ref' and r in ('unknown', 'rec') and os.environ.get('SHOW'))
            if show:
                print('%s %s %s' % (r, f.qual, label))
                if os.environ.get('SHOW') == '2' or (mode == 'ref' and r == 'diff'):
                    print('    ', C.describe(w1)[:700], '|', C.describe(w2)[:900] if w2 else '', od)
    for k, v in sorted(bykind.items()):
        print('%-12s %s' % (k, dict(v)))
    print(dict(tot))


if __name__ == '__main__':
    main()
