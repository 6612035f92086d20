"""Vocabulary of the analysed package as confirmed when the laws were written.

Functions outside it are helpers that a later edit introduced: they are
always looked through, never reasoned about by name.  Regenerate with
`python3 -m sa.baseline` after a repair commit in the repository.
"""
import ast
import json
import os
import sys

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.json')


def load():
    with open(PATH) as fh:
        return json.load(fh)


def build(program):
    funcs = {}
    names = set()
    for f in program.all_functions():
        pos, kwo, va, kw = f.params()
        funcs[f.qual] = [pos, kwo, va, kw]
        names.add(f.name)
    for m in program.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.ClassDef):
                names.add(n.name)
            elif isinstance(n, ast.arg):
                names.add(n.arg)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add(a.name.split('.')[-1])
    # builtins that a rewrite may bring in without new meaning
    names |= {'len', 'sum', 'min', 'max', 'abs', 'any', 'all', 'sorted', 'set', 'list', 'dict', 'tuple',
              'isinstance', 'hasattr', 'range', 'float', 'int', 'bool', 'str', 'type', 'strip', 'lstrip', 'rstrip',
              'timetuple', 'tm_yday', 'toordinal', 'days', 'weekday', 'month', 'day', 'hour', 'date', 'time',
              'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'round', 'issubclass', 'callable', 'id'}
    return {'functions': funcs, 'names': sorted(names)}


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sa.program import Program
    data = build(Program(sys.argv[1] if len(sys.argv) > 1 else '/repo'))
    with open(PATH, 'w') as fh:
        json.dump(data, fh, indent=0, sort_keys=True)
    print(len(data['functions']), len(data['names']))
