"""One-off: write the skeleton of laws/ from reviewed source and tools/lawtags.txt.

The output was then reviewed and edited by hand; the laws are what is kept.
"""
import ast, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.program import Program
from sa import baseline

def strip(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and ast.get_docstring(n, clean=False) is not None:
            n.body = n.body[1:] or [ast.Pass()]
    return node

def main(repo):
    p = Program(repo)
    bl = baseline.load()['functions']
    tags, star, mod = {}, {}, None
    for line in open(os.path.join(ROOT, 'tools', 'lawtags.txt')):
        line = line.strip()
        if not line: continue
        if line[0] == '[':
            mod = line[1:-1]; continue
        n, rest = line.split(' = ', 1)
        t, why = rest.split(' : ', 1)
        (star if n == '*' else tags)[mod if n == '*' else mod + ':' + n] = (t.split(), why)
    seen = set()
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        fs = [f for f in p.all_functions() if f.module is m and f.qual in bl]
        if not fs: continue
        out = ['"""Laws of %s (specification text; parsed, never run)."""' % m.name, '# module: ' + m.name, '']
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                out.append(ast.unparse(n))
            elif isinstance(n, ast.ImportFrom):
                if n.level:
                    parts = m.name.split('.')
                    if not m.path.endswith('__init__.py'): parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    n = ast.ImportFrom('.'.join(parts + ([n.module] if n.module else [])), n.names, 0)
                out.append(ast.unparse(n))
        out.append('')
        def emit(f, ind):
            t = tags.get(f.qual) or star.get(m.name)
            seen.add(f.qual)
            if t is None:
                print('untagged', f.qual); return
            node = strip(ast.parse(ast.unparse(f.node)).body[0])
            node.body.insert(0, ast.Expr(ast.Constant(t[1])))
            s = ast.unparse(ast.fix_missing_locations(node))
            s = '@law(%s)\n' % ', '.join("'%s'" % x for x in t[0]) + s
            out.append('\n'.join((' ' * ind + l) if l else l for l in s.split('\n')))
            out.append('')
        for f in sorted((f for f in fs if f.cls is None), key=lambda f: f.node.lineno):
            emit(f, 0)
        for c in sorted(m.classes.values(), key=lambda c: c.node.lineno):
            cf = [f for f in fs if f.cls is c]
            if not cf: continue
            out.append('class %s:' % c.name)
            done = set()
            for f in sorted(cf, key=lambda f: (f.node.lineno, f.kind)):
                if id(f.node) in done: continue
                done.add(id(f.node))
                emit(f, 4)
        path = os.path.join(ROOT, 'laws', m.name[len('forecaster'):].lstrip('.').replace('.', '_') + '.py')
        open(path, 'w').write('\n'.join(out))
    for q in set(tags) - seen: print('no such function', q)
    for q in set(bl) - seen: print('baseline function gone', q)
main(sys.argv[1] if len(sys.argv) > 1 else '/repo')
