"""Summaries must not depend on the numbering of fresh variables."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.program import Program
from sa import flow, baseline, compare as C
from sa.effects import Purity


def main():
    p = Program(os.environ.get('REPO', '/repo'))
    pu, bl = Purity(p), baseline.load()
    vocab = C.Vocab(bl['names'], bl['functions'])
    bad = 0
    for f in sorted(p.all_functions(), key=lambda f: f.qual):
        fs = []
        for off in (0, 1, 7, 100, 12345):
            flow.FRESH0 = off
            fs.append(C.Facts(flow.Evaluator(p, purity=pu, baseline=bl['functions']).run(f, f.cls)))
        for x in fs[1:]:
            r = C.cmp_terms(x.ret, fs[0].ret, vocab)[0], C.cmp_events(x, fs[0], vocab)[0]
            if r != ('same', 'same'):
                bad += 1
                print(f.qual, r, x.ret == fs[0].ret)
                break
    print('functions whose summary depends on numbering:', bad)


main()
