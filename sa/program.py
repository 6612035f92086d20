"""Whole-program model of the analysed package, built from source only.

Parses every module of the package, resolves imports, classes, base classes
and method resolution orders, and classifies every class member (plain
method, property, recorded property, ...).  Nothing is imported or executed.
"""

import ast
import os


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: no verdict is possible."""


class Func:
    """One function or method definition."""

    def __init__(self, module, node, cls=None, kind='function', parent=None):
        self.module = module
        self.node = node
        self.cls = cls          # ClassInfo or None
        self.kind = kind        # function|method|static|class|property|recorded|cached|setter|deleter
        self.parent = parent
        self.name = node.name

    @property
    def qual(self):
        q = self.name
        if self.cls is not None:
            q = self.cls.name + '.' + q
        if self.kind in ('setter', 'deleter'):
            q += '.' + self.kind
        return self.module.name + ':' + q

    @property
    def short(self):
        return self.qual.split(':', 1)[1]

    @property
    def where(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return '<%s>' % self.qual

    def params(self):
        """All parameter names: (positional, kwonly, vararg, kwarg)."""
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        return pos, [x.arg for x in a.kwonlyargs], \
            a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None

    def defaults(self):
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[arg.arg] = d
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[arg.arg] = d
        return out


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.members = {}     # name -> Func (getter / method)
        self.setters = {}
        self.deleters = {}
        self.attrs = {}       # class-level assignments name -> expr
        self.base_exprs = node.bases
        self.keywords = node.keywords
        self.bases = []       # resolved ClassInfo
        self.ext_bases = []   # unresolved names
        self.mro = [self]

    @property
    def where(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return '<class %s>' % self.name

    def lookup(self, name, after=None):
        """First definition of name in the MRO (optionally after a class)."""
        started = after is None
        for c in self.mro:
            if started and name in c.members:
                return c.members[name]
            if c is after:
                started = True
        return None

    def lookup_setter(self, name):
        for c in self.mro:
            if name in c.setters:
                return c.setters[name]
            if name in c.members:
                return None
        return None

    def lookup_attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c.attrs[name]
        return None

    def is_subclass(self, name):
        return any(c.name == name for c in self.mro)


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.functions = {}
        self.classes = {}
        self.imports = {}     # local name -> ('mod', modname) | ('sym', modname, sym)
        self.consts = {}      # module-level assigned names -> expr


def _prop_kind(dec):
    n = None
    if isinstance(dec, ast.Name):
        n = dec.id
    elif isinstance(dec, ast.Attribute):
        n = dec.attr
    elif isinstance(dec, ast.Call):
        return _prop_kind(dec.func)
    return n


class Program:
    def __init__(self, repo='/repo', package='forecaster', overlay=None):
        self.overlay = overlay or {}
        self.repo = repo
        self.package = package
        self.modules = {}
        self.classes = {}     # simple name -> ClassInfo (unique names in this package)
        self.dup_classes = {}
        self.files = []
        self._load()

    # ---- loading ---------------------------------------------------
    def _load(self):
        root = os.path.join(self.repo, self.package)
        for base, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(base, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                if rel in self.overlay:
                    src = self.overlay[rel]
                else:
                    with open(path, encoding='utf-8') as fh:
                        src = fh.read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as exc:
                    raise AnalysisBroken('cannot parse %s: %s' % (rel, exc))
                m = Module(name, path, rel, tree, src)
                self.modules[name] = m
                self.files.append(rel)
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            for c in m.classes.values():
                self._resolve_bases(c)
        for m in self.modules.values():
            for c in m.classes.values():
                c.mro = self._c3(c)

    def _scan(self, m):
        is_pkg = m.path.endswith('__init__.py')

        def imp(node):
            if isinstance(node, ast.Import):
                for al in node.names:
                    m.imports[al.asname or al.name.split('.')[0]] = (
                        'mod', al.name if al.asname else al.name.split('.')[0])
            else:
                mod = node.module or ''
                if node.level:
                    parts = m.name.split('.')
                    if not is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (node.level - 1)]
                    mod = '.'.join(parts + ([node.module] if node.module else []))
                for al in node.names:
                    m.imports[al.asname or al.name] = ('sym', mod, al.name)

        def stmts(body):
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    imp(s)
                elif isinstance(s, (ast.FunctionDef,)):
                    m.functions[s.name] = Func(m, s)
                elif isinstance(s, ast.ClassDef):
                    self._scan_class(m, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.consts[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                    m.consts[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try)):
                    stmts(s.body)
                    stmts(s.orelse)
        stmts(m.tree.body)
        # imports inside functions are visible to resolution as well
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    if (al.asname or al.name) not in m.imports:
                        imp(n)

    def _scan_class(self, m, node):
        c = ClassInfo(m, node)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind = 'method'
                key = None
                for d in s.decorator_list:
                    k = _prop_kind(d)
                    if k == 'staticmethod':
                        kind = 'static'
                    elif k == 'classmethod':
                        kind = 'class'
                    elif k in ('property', 'cached_property'):
                        kind = 'property'
                    elif k == 'recorded_property':
                        kind = 'recorded'
                    elif k == 'recorded_property_cached':
                        kind = 'cached'
                    elif k in ('setter', 'deleter', 'getter') and isinstance(d, ast.Attribute):
                        kind = k
                        key = d.value.id if isinstance(d.value, ast.Name) else s.name
                f = Func(m, s, c, kind)
                if kind == 'setter':
                    c.setters[key] = f
                elif kind == 'deleter':
                    c.deleters[key] = f
                elif kind == 'getter':
                    f.kind = 'property'
                    c.members[key] = f
                else:
                    c.members[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                        # alias:  name = property(getter) / name = other
                        self._class_alias(m, c, t.id, s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                c.attrs[s.target.id] = s.value
        m.classes[c.name] = c
        if c.name in self.classes:
            self.dup_classes.setdefault(c.name, []).append(c)
        else:
            self.classes[c.name] = c

    def _class_alias(self, m, c, name, value):
        if isinstance(value, ast.Call) and isinstance(value.func, ast.Name):
            kinds = {'property': 'property', 'recorded_property': 'recorded',
                     'recorded_property_cached': 'cached', 'staticmethod': 'static'}
            k = kinds.get(value.func.id)
            if k:
                order = ['fget', 'fset', 'fdel']
                got = dict(zip(order, value.args))
                got.update({kw.arg: kw.value for kw in value.keywords if kw.arg})
                g = got.get('fget')
                if isinstance(g, ast.Name) and g.id in c.members:
                    c.members[name] = Func(m, c.members[g.id].node, c, k)
                g = got.get('fset')
                if isinstance(g, ast.Name) and g.id in c.members:
                    c.setters[name] = Func(m, c.members[g.id].node, c, 'setter')

    def _resolve_bases(self, c):
        for b in c.base_exprs:
            if isinstance(b, (ast.Name, ast.Attribute)):
                r = self.resolve_expr(c.module, b)
                if r and r[0] == 'class':
                    c.bases.append(r[1])
                    continue
            c.ext_bases.append(ast.unparse(b))

    def _c3(self, c, seen=()):
        if c in seen:
            return [c]
        seqs = [list(self._c3(b, seen + (c,))) for b in c.bases] + [list(c.bases)]
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            for s in seqs:
                if s and s[0] is cand:
                    del s[0]
        return out

    # ---- resolution ------------------------------------------------
    def resolve_name(self, module, name, depth=0):
        """('class',C)|('func',F)|('const',module,expr)|('mod',name)|('ext',dotted)|None"""
        if depth > 12:
            return None
        if name in module.classes:
            return ('class', module.classes[name])
        if name in module.functions:
            return ('func', module.functions[name])
        if name in module.consts:
            return ('const', module, name, module.consts[name])
        if name in module.imports:
            i = module.imports[name]
            if i[0] == 'mod':
                return ('mod', i[1])
            _, mod, sym = i
            if mod in self.modules:
                r = self.resolve_name(self.modules[mod], sym, depth + 1)
                if r is not None:
                    return r
            if mod + '.' + sym in self.modules:
                return ('mod', mod + '.' + sym)
            return ('ext', mod + '.' + sym)
        sub = module.name + '.' + name
        if sub in self.modules and module.path.endswith('__init__.py'):
            return ('mod', sub)
        return None

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if b is None:
                return None
            if b[0] == 'mod':
                if b[1] in self.modules:
                    r = self.resolve_name(self.modules[b[1]], node.attr)
                    if r is not None:
                        return r
                    if b[1] + '.' + node.attr in self.modules:
                        return ('mod', b[1] + '.' + node.attr)
                    return None
                return ('ext', b[1] + '.' + node.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
        return None

    # ---- lookup helpers ---------------------------------------------
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        return c

    def method(self, cname, mname, inherited=True):
        c = self.cls(cname)
        f = c.lookup(mname) if inherited else c.members.get(mname)
        if f is None:
            raise AnalysisBroken('%s.%s not found' % (cname, mname))
        return f

    def setter(self, cname, name):
        f = self.cls(cname).lookup_setter(name)
        if f is None:
            raise AnalysisBroken('setter %s.%s not found' % (cname, name))
        return f

    def function(self, modname, fname):
        m = self.modules.get(modname)
        f = m.functions.get(fname) if m else None
        if f is None and m is not None:
            r = self.resolve_name(m, fname)
            if r and r[0] == 'func':
                f = r[1]
        if f is None:
            for mm in self.modules.values():
                if fname in mm.functions:
                    f = mm.functions[fname]
        if f is None:
            raise AnalysisBroken('function %s not found' % fname)
        return f

    def find_function(self, ref):
        """The function a resolved name `module:function` stands for."""
        mod, _, name = ref.partition(':')
        m = self.modules.get(mod)
        return m.functions.get(name) if m is not None else None

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in list(c.members.values()) + list(c.setters.values()) + list(c.deleters.values()):
                    yield f

    def subclasses(self, name):
        return [c for m in self.modules.values() for c in m.classes.values()
                if c.is_subclass(name)]

    def methods_named(self, name):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if name in c.members:
                    out.append(c.members[name])
        return out
