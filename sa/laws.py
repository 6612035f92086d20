"""Laws: what each operation must compute and do, as specification text.

The files under laws/ state, operation by operation, the value it returns and
the effects it has.  They are parsed, summarised by the same value-flow
analysis as the code, and compared with the summary of the current source.
They are never executed.
"""
import ast
import copy
import glob
import os

from .program import Func, Module, AnalysisBroken, _prop_kind
from .flow import Evaluator, HEAVY
from . import compare as C
from . import flow
from . import terms as T

ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'laws')


class Law:
    def __init__(self, module, cls_name, node, kind, props, asis=None, only=None):
        self.module = module        # name of the repository module
        self.cls_name = cls_name
        self.node = node
        self.kind = kind
        # 'C16/raise' means: for C16 only the errors raised count
        self.props = [x for x in props if '/' not in x]
        self.facets = {x.split('/')[0]: [x.split('/')[1]] for x in props if '/' in x}
        self.asis = asis            # id of the known finding this text describes
        self.only = only
        self.name = node.name
        self.decs = []
        self.func = None            # Func of the law text

    @property
    def qual(self):
        q = (self.cls_name + '.' if self.cls_name else '') + self.name
        if self.kind in ('setter', 'deleter'):
            q += '.' + self.kind
        return self.module + ':' + q

    @property
    def private(self):
        return self.name.startswith('_') and not self.name.startswith('__')


def known_none(x):
    """Whether a figure is None, where the package's own laws settle it.

    A link's record is None exactly when the link is not registered, and so is
    its group: `register` stores a record object, whose group is a set, and
    nothing else is stored there (the laws of accounts/link.py).
    """
    if x[0] == 'call' and x[1][0] == 'g' and _CLASSES[0](x[1]):
        return T.FALSE
    if _is_record(x):
        return T.FALSE
    if x[0] == 'i' and x[1][0] == 'a' and x[1][2] == 'strategies':
        return T.FALSE          # the members of a class that have a key (StrategyType.__init__)
    if x[0] == 'i' and x[1][0] == 'a' and x[1][2].endswith(('transactions', 'weights', 'brackets')):
        return T.FALSE          # tables of flows, of weights, of thresholds
    if x[0] == 'a' and x[2] in ('transactions', '_transactions'):
        return T.FALSE          # a table from the first (the laws of Account.__init__, SubForecast.__init__)
    if x[0] == 'call' and x[1][0] in ('a', 'g') and _GIVES[0]((x[1][2] if x[1][0] == 'a' else x[1][1]).split(':')[-1]):
        return T.FALSE
    if x[0] == 'a' and x[2] == '_record' or (x[0] == 'a' and x[2] == 'group'):
        y = x[1]
        if x[2] == 'group':
            if _is_record(y) or (y[0] == 'a' and y[2] == '_record'):
                return T.FALSE
            if not (y == T.mk('p', 'self') or (y[0] == 'p' and y[1] == 'link')):
                return None
        return T.b_not(T.truthy(T.mk('call', T.mk('a', y, 'is_registered'), (), ())))
    return None


_GIVES = [lambda name: False]       # do all operations of a name give a figure, never None?
_CLASSES = [lambda t: False]        # does a term name a class of the package?


def _is_record(x):
    """owner.data[token] of one link"""
    return x[0] == 'i' and x[2][0] == 'a' and x[2][2] == 'token' and x[1] == T.mk('a', T.mk('a', x[2][1], 'owner'), 'data')


class TableLaw:
    def __init__(self, module, cls_name, name, expr, props):
        self.module, self.cls_name, self.name, self.expr, self.props = module, cls_name, name, expr, props

    @property
    def qual(self):
        return self.module + ':' + (self.cls_name + '.' if self.cls_name else '') + self.name


class ClassLaw:
    def __init__(self, name, rel, bases, props):
        self.name, self.rel, self.bases, self.props = name, rel, bases, props

    @property
    def qual(self):
        return '%s %s %s' % (self.name, 'extends' if self.rel == '<=' else 'has metaclass', ' and '.join(self.bases))


def _kind(node, in_class):
    if not in_class:
        return 'function'
    kind = 'method'
    for d in node.decorator_list:
        k = _prop_kind(d)
        kind = {'staticmethod': 'static', 'classmethod': 'class', 'property': 'property',
                'recorded_property': 'recorded', 'recorded_property_cached': 'cached',
                'setter': 'setter', 'deleter': 'deleter'}.get(k, kind)
    return kind


class LawBook:
    def __init__(self, root=ROOT, texts=None):
        self.laws = []
        self.asis = {}        # qual -> [Law]
        self.tables = []
        self.classes = []
        self.modules = {}     # module name -> Module of the law text
        for path in sorted(glob.glob(os.path.join(root, '*.py'))):
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            self._load(path, (texts or {}).get(os.path.basename(path), src))
        with open(os.path.join(root, 'classes.txt'), encoding='utf-8') as fh:
            for line in fh:
                line = line.split('#')[0].strip()
                if line:
                    left, props = line.split(':')
                    w = left.split()
                    self.classes.append(ClassLaw(w[0], w[1], w[2:], props.split()))

        self._also(os.path.join(root, 'also.txt'))

    def _also(self, path):
        """Further operations that a property's outcome is computed with."""
        by = {}
        for l in self.laws:
            by.setdefault(l.qual.split(':')[1], []).append(l)
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                line = line.split('#')[0].strip()
                if not line:
                    continue
                prop, names = line.split(':')
                for n in names.split():
                    if len(by.get(n, ())) != 1:
                        raise AnalysisBroken('also.txt: %s names %d laws' % (n, len(by.get(n, ()))))
                    for l in by[n] + self.asis.get(by[n][0].qual, []):
                        if prop not in l.props:
                            l.props.append(prop)
                            l.facets.pop(prop, None)

    def _load(self, path, src):
        name = None
        for line in src.split('\n')[:6]:
            if line.startswith('# module: '):
                name = line[10:].strip()
        tree = ast.parse(src)
        m = Module(name, path if not name.endswith('__init__') else path, os.path.basename(path), tree, src)
        self.modules[name] = m
        for s in tree.body:
            if isinstance(s, ast.Import):
                for al in s.names:
                    m.imports[al.asname or al.name.split('.')[0]] = ('mod', al.name if al.asname else al.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for al in s.names:
                    m.imports[al.asname or al.name] = ('sym', s.module, al.name)
            elif isinstance(s, ast.FunctionDef):
                self._law(name, None, s)
            elif isinstance(s, ast.ClassDef):
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        self._law(name, s.name, x)
                    elif isinstance(x, ast.AnnAssign):
                        self._table(name, s.name, x)
            elif isinstance(s, ast.AnnAssign):
                self._table(name, None, s)

    def _table(self, name, cname, s):
        props = self._tags([s.annotation])
        self.tables.append(TableLaw(name, cname, s.target.id, s.value, props[0]))

    def _tags(self, decs):
        for d in decs:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('law', 'asis'):
                only = None
                for kw in d.keywords:
                    if kw.arg == 'only':
                        only = ast.literal_eval(kw.value)
                return [a.value for a in d.args], only, d.func.id
        return None

    def _law(self, module, cname, node):
        t = self._tags(node.decorator_list)
        if t is None:
            raise AnalysisBroken('law without a property: %s' % node.name)
        args, only, kind = t
        node.decorator_list = [d for d in node.decorator_list if not (
            isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('law', 'asis'))]
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            node.body = node.body[1:] or [ast.Pass()]
        law = Law(module, cname, node, _kind(node, cname is not None), args, only=only)
        law.decs = node.decorator_list
        if 'C16' not in law.props and any(isinstance(n, ast.Raise) for n in ast.walk(node)):
            law.facets.setdefault('C16', ['raise'])
        if kind == 'asis':
            law.asis = args[0]
            law.props = args[1:]
            self.asis.setdefault(law.qual, []).append(law)
        else:
            self.laws.append(law)


STEPS = 250000        # steps of building terms before reading more of the package in place is given up


class Checker:
    """Compares the laws with the current source."""

    def __init__(self, program, purity, baseline, book):
        self.p = program
        self.pu = purity
        self.bl = baseline['functions']
        self.vocab = C.Vocab(baseline['names'], baseline['functions'])
        for f in program.all_functions():
            if f.kind in ('recorded', 'cached') and f.name in self.vocab.names:     # its record is known by these names
                self.vocab.names |= {f.name + '_history', '_' + f.name + '_history'}
        self.vocab.sigs = lambda name: sorted({tuple(m.params()[0][1:]) for m in program.methods_named(name) if m.kind == 'method'})
        self.book = book
        self.byq = {}
        self.swap = {}
        self.agreed = {}        # what had to be read in place for a function to agree with its law
        self.missing = {}
        self.changed = set()
        self.cache = {}
        self._idle = {}
        self._maybe = None
        T.HAS[0] = self.has
        self._subs = {}
        T.SUBCLASS[0] = self.subclass
        T.INSTANCE[0] = self.instance
        flow.TRANSPARENT.clear()
        flow.TRANSPARENT.update(self.transparent())
        flow.ENTRY.clear()
        flow.ENTRY.update(self.entries())
        T.KNOWN_NONE[0] = known_none
        _GIVES[0] = self.gives
        self._gives = self._tuples = None
        _CLASSES[0] = lambda t: self._class(t) is not None or self._namedtuple(t)
        T.EXCLUSIVE[:] = [frozenset(('is_leaf_node', 'is_ordered', 'is_weighted'))]
        self.law_cache = {}
        self.verdicts = {}
        self.eff = {}
        self.law_classes = {l.cls_name for l in book.laws if l.cls_name}
        self._bind()
        program.opposites, T.IMPLIES[0] = flow._questions(program, [l.func for l in book.laws if l.kind == 'method' and l.func is not None])

    # ------------------------------------------------------------ binding
    def _module_for(self, name):
        """Module of a law text: the repository's names, then the law's own imports."""
        lm = self.book.modules[name]
        rm = self.p.modules.get(name)
        if rm is not None and not getattr(lm, 'bound', False):
            lm.path = rm.path
            lm.functions = rm.functions
            lm.classes = rm.classes
            lm.consts = rm.consts
            lm.bound = True
        lm.rel = 'laws/' + os.path.basename(lm.path) if rm is None else lm.rel
        return lm

    def _bind(self):
        for law in self.book.laws + [x for xs in self.book.asis.values() for x in xs]:
            lm = self._module_for(law.module)
            cls = self.p.classes.get(law.cls_name) if law.cls_name else None
            law.func = Func(lm, law.node, cls, law.kind)
            law.func.is_law = True
            law.func.law = law
            law.cls = cls
            law.actual = self.find(law)
            if law.asis:
                continue
            self.byq[law.qual] = law
            if law.private and law.kind in ('method', 'static', 'class', 'function', 'property'):
                a = law.actual
                if a is None:
                    self.missing[law.qual] = law
                    if cls is not None:
                        cls.members.setdefault(law.name, law.func)
                    elif law.module in self.p.modules:
                        self.p.modules[law.module].functions.setdefault(law.name, law.func)
                elif [list(x) if isinstance(x, (list, tuple)) else x for x in a.params()] != \
                        [list(x) if isinstance(x, (list, tuple)) else x for x in law.func.params()]:
                    self.swap[a.qual] = law.func
                    self.changed.add(law.qual)

    def find(self, law):
        if law.cls_name:
            c = self.p.classes.get(law.cls_name)
            if c is None:
                return None
            if law.kind == 'setter':
                return c.lookup_setter(law.name)
            if law.kind == 'deleter':
                for k in c.mro:
                    if law.name in k.deleters:
                        return k.deleters[law.name]
                return None
            return c.lookup(law.name)
        m = self.p.modules.get(law.module)
        if m is not None:
            if law.name in m.functions:
                return m.functions[law.name]
            r = self.p.resolve_name(m, law.name)
            if r and r[0] == 'func':
                return r[1]
        for m in self.p.modules.values():
            if law.name in m.functions:
                return m.functions[law.name]
        return None

    # ------------------------------------------------------------ summaries
    def has(self, k, attr):
        """Does an object of the class a term names have an attribute (None: not known)?"""
        if k[0] != 'g' or ':' not in k[1]:
            return None
        mod, name = k[1].split(':', 1)
        if name in self.p.classes:
            c = self.p.classes[name]
            for b in c.mro:
                if attr in b.members or attr in b.attrs or attr in b.setters:
                    return True
                for n in ast.walk(b.node):
                    if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        return True
            return None
        e = self.p.modules[mod].consts.get(name) if mod in self.p.modules else None
        if isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) == 'namedtuple' and len(e.args) >= 2 and \
                isinstance(e.args[1], (ast.List, ast.Tuple)):
            names = [x.value for x in e.args[1].elts if isinstance(x, ast.Constant)]
            return attr in names if len(names) == len(e.args[1].elts) else None
        return None

    def transparent(self):
        """Properties whose law is to hand out one private attribute: name -> attribute."""
        out, bad, own = {}, set(), {}
        for law in self.book.laws:
            if law.kind in ('property', 'recorded', 'cached') and law.cls_name:
                body = [n for n in law.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
                x = body[0].value if len(body) == 1 and isinstance(body[0], ast.Return) else None
                if law.kind == 'property' and isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and \
                        x.attr == '_' + law.name and out.get(law.name, x.attr) == x.attr:
                    out[law.name] = own[(law.cls_name, law.name)] = x.attr
                else:
                    bad.add(law.name)
        for c in self.p.classes.values():
            for n in out:
                m = c.lookup(n)
                if m is not None and m.kind == 'property':
                    continue
                if m is not None or n in c.attrs:
                    bad.add(n)
                for x in ast.walk(c.node):
                    if isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Store):
                        bad.add(n)
        res = {n: a for n, a in out.items() if n not in bad}
        res.update(own)
        return res

    def _class(self, t):
        return next((c for c in self.p.classes.values() if '%s:%s' % (c.module.name, c.name) == t[1]), None) if t[0] == 'g' else None

    def _namedtuple(self, t):
        if t[0] != 'g' or ':' not in t[1]:
            return False
        mod, name = t[1].split(':', 1)
        e = self.p.modules[mod].consts.get(name) if mod in self.p.modules else None
        return isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) == 'namedtuple'

    def instance(self, ctor, k):
        """Is what a constructor builds an object of class k (None: the class table does not tell)?"""
        if ctor == k:
            return True
        if self._namedtuple(ctor):
            if self._class(k) is not None or self._namedtuple(k):
                return False
            return T._kinds(T.mk('b', 'tuple'), k)
        c = self._class(ctor)
        if c is None:
            return None
        r = self.subclass(ctor, k)
        if r is None and self._class(k) is not None:
            r = False
        return r

    def subclass(self, a, b):
        """Class table: is every object of the one class an object of the other?"""
        k = (a, b)
        if k not in self._subs:
            cs = [next((c for c in self.p.classes.values() if '%s:%s' % (c.module.name, c.name) == x[1]), None) for x in (a, b)]
            r = None
            if cs[0] is not None and b[0] == 'b':
                layouts = {x.id for c in cs[0].mro for x in c.node.bases if isinstance(x, ast.Name) and x.id in T._LAYOUTS}
                if b[1] in layouts:
                    r = True
                elif layouts and b[1] in T._LAYOUTS:
                    r = False
            elif None not in cs and cs[1] in cs[0].mro:
                r = True
            self._subs[k] = r
        return self._subs[k]

    def idle(self, ft):
        """Constant defaults of the parameters of what a call term names."""
        k = ft[1] if ft[0] == 'g' else '.' + ft[2] if ft[0] == 'a' else None
        if k is None:
            return None
        if k not in self._idle:
            if k[0] == '.':
                fs = [f for f in self.p.methods_named(k[1:]) if f.kind != 'prop']
            else:
                fs = [f for f in self.p.all_functions() if f.cls is None and f.qual == k]
                if not fs:
                    cs = [c for c in self.p.classes.values() if k == '%s:%s' % (c.module.name, c.name)]
                    fs = [c.lookup('__init__') for c in cs if c.lookup('__init__') is not None]
            ds = [{n: T.const(d.value) for n, d in f.defaults().items() if isinstance(d, ast.Constant)} for f in fs]
            self._idle[k] = {n: v for n, v in ds[0].items() if all(d.get(n) == v for d in ds)} if ds else None
        return self._idle[k]

    def facts(self, func, cls, law_side=False, deep=False, precision=False, wide=()):
        k = (func, cls, law_side, deep, precision, tuple(sorted(wide)))
        if k not in self.cache:
            ev = Evaluator(self.p, purity=self.pu, baseline=self.bl, deep=deep, strip_precision=not precision,
                           inline_public=wide, inline_props=wide)
            ev.optional = self.optional(func)
            ev.again = None if law_side else self.again(func)
            if law_side:
                ev.swap = dict(self.swap)
                for law in self.book.laws:
                    if law.name in wide and law.kind != 'setter' and law.actual is not None and not getattr(law.actual, 'is_law', False):
                        ev.swap.setdefault(law.actual.qual, self.effective(law).func)
                if deep:
                    for law in self.book.laws:
                        if law.private and law.actual is not None and law.cls_name not in HEAVY:
                            ev.swap.setdefault(law.actual.qual, self.effective(law).func)
            self.cache[k] = C.Facts(ev.run(func, cls, self.passed_on(func)), idle=self.idle, iterator=func.name == '__iter__', maker=func.name == '__init__')
        return self.cache[k]

    def again(self, func):
        """The function itself, if it starts over with other arguments where its law does not."""
        def calls(node):
            return any(isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', None)) == func.name and not (
                isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call)) for n in ast.walk(node))
        law = next((l for l in self.book.laws if l.actual is func), None)
        return func if law is not None and not func.name.startswith('__') and calls(func.node) and not calls(law.func.node) else None

    def passed_on(self, func):
        """Arguments of the law's signature that the code takes in its keyword table instead."""
        pos, kwo, va, kw = func.params()
        law = next((l for l in self.book.laws if l.actual is func), None) if kw and not va else None
        if law is None or law.func.params()[3]:
            return None
        lp, lk = law.func.params()[:2]
        names = [n for n in list(lp) + list(lk) if n not in pos and n not in kwo]
        if not names:
            return None
        return {kw: T.mk('dict', tuple((T.const(n), T.mk('p', n)) for n in sorted(names)))}

    def optional(self, func):
        """Figures of a function that may be None: its defaults, and attributes tested for it."""
        if self._maybe is None:
            self._maybe, self._tested = set(), {}
            for f in list(self.p.all_functions()) + [l.func for l in self.book.laws]:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.left, ast.Name) and \
                            isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                        self._tested.setdefault(f.name, set()).add(n.left.id)
            trees = [m.tree for m in self.p.modules.values()] + [l.func.node for l in self.book.laws]
            for t in trees:
                for n in ast.walk(t):
                    if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.left, ast.Attribute) and \
                            isinstance(n.left.value, ast.Name) and n.left.value.id == 'self' and \
                            isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                        self._maybe.add(n.left.attr)
        ps = {T.mk('p', n) for n, d in func.defaults().items() if isinstance(d, ast.Constant) and d.value is None}
        ps |= {T.mk('p', n) for n in self._tested.get(func.name, ())}
        return frozenset(ps | {T.mk('a', T.mk('p', 'self'), n) for n in self._maybe})


    def raw(self, law, actual, deep=False, cls=None):
        """Verdict of one comparison: (same|unknown|diff, description).

        When the two sides differ and one of them uses operations of the package
        that the other does not, those are read in place before it counts."""
        r = self.raw0(law, actual, deep, cls)
        if r[0] != 'diff':
            return r
        wide, sides, last = frozenset(), set(), r
        for _ in range(4):
            try:
                ea, eb, uneven = T.budget(STEPS, lambda: self.one_sided(law, actual, deep, cls or law.cls, wide))
            except RecursionError:
                break
            if ea:
                sides.add('code')
            if eb:
                sides.add('law')
            if not ea and not eb and not uneven:
                break
            for more in ([ea] if ea else []) + ([eb] if eb else []) + ([ea | eb] if ea and eb else []) + ([ea | eb | uneven] if uneven else []):
                try:
                    last = T.budget(STEPS, lambda: self.raw0(law, actual, deep, cls, wide | more))
                except RecursionError:
                    continue
                if last[0] == 'same':
                    self.agreed[actual] = wide | more
                    return last
            wide |= ea | eb | uneven
        if len(sides) == 1 and last[0] == 'unknown':
            return last
        return r

    def one_sided(self, law, actual, deep, cls, wide):
        """Operations of the package named on one side only."""
        def names(f):
            out = set()
            for t in [f.ret] + [x for e, g in f.events for x in (e, g)]:
                for x in T.walk(t):
                    if x[0] == 'a':
                        out.add(x[2])
                    elif x[0] == 'g':
                        out.add(x[1].split(':')[-1])
                    elif x[0] == 'len':
                        out.add('__len__')
            return out
        a = self.facts(actual, cls, deep=deep, wide=wide)
        b = self.facts(law.func, cls, law_side=True, deep=deep, wide=wide)
        x, y = names(a), names(b)
        # called on both sides, but not under the same conditions
        calls = [{ch[1] for ch in (C.channel(l) for l, g in u if (l, g) not in v) if ch[0] == 'call' and isinstance(ch[1], str)}
                 for u, v in ((a.events, b.events), (b.events, a.events))]

        # asked with other arguments
        def asked(f):
            out = {}
            for t in [f.ret] + [x for e, g in f.events for x in (e, g)]:
                for x in T.walk(t):
                    if x[0] == 'call' and x[1][0] in ('a', 'g'):
                        out.setdefault(x[1][2] if x[1][0] == 'a' else x[1][1].split(':')[-1], set()).add(x[3])
            return out
        qa, qb = asked(a), asked(b)
        calls.append({n for n in qa if n in qb and {tuple(k for k, _ in kw) for kw in qa[n]} != {tuple(k for k, _ in kw) for kw in qb[n]}})

        # its answer is changed in place on one side only
        def filled(f):
            out = set()
            for l, g in f.events:
                while l[0] == 'each':
                    l = l[4]
                if l[0] == 'ev' and l[1] in ('setitem', 'mut', 'delitem') and l[2][0] == 'call':
                    h = l[2][1]
                    out.add((l[1], h[2] if h[0] == 'a' else h[1].split(':')[-1] if h[0] == 'g' else ''))
            return out
        fill = {n for _, n in filled(a) ^ filled(b)}

        def keep(ns):
            return frozenset(n for n in ns - wide if (n == '__len__' or not n.startswith('__')) and any(m is not actual for m in self.named(n)))
        return keep(x - y), keep(y - x), keep(calls[0] & calls[1] | calls[2] | fill)

    def entries(self):
        """Operations whose law ends in `if k is None: return X` and `return X[k]`."""
        out = {}
        for law in self.book.laws:
            b = law.node.body if isinstance(law.node, ast.FunctionDef) else []
            if law.only or len(b) < 2 or not isinstance(b[-1], ast.Return) or not isinstance(b[-1].value, ast.Subscript):
                continue
            t, k = b[-2], b[-1].value.slice
            if isinstance(k, ast.Name) and isinstance(t, ast.If) and not t.orelse and len(t.body) == 1 and isinstance(t.body[0], ast.Return) and \
                    t.body[0].value is not None and ast.unparse(t.body[0].value) == ast.unparse(b[-1].value.value) and \
                    ast.unparse(t.test) == k.id + ' is None' and k.id in [a.arg for a in law.node.args.args + law.node.args.kwonlyargs]:
                out[law.qual] = k.id
        return out

    def gives(self, name):
        """Do all the package's operations of a name return a figure by their laws (a sum, an extreme, arithmetic)?"""
        if self._gives is None:
            def figure(e):
                if isinstance(e, ast.IfExp):
                    return figure(e.body) and figure(e.orelse)
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('max', 'min', 'sum', 'abs', 'len', 'round'):
                    return all(figure(k.value) for k in e.keywords if k.arg == 'default')
                return isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Div))

            def always(node):
                rets = [n for n in ast.walk(node) if isinstance(n, ast.Return)]
                return rets and isinstance(node.body[-1], ast.Return) and all(n.value is not None and figure(n.value) for n in rets) and not any(
                    isinstance(n, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.FunctionDef)) for n in ast.walk(node) if n is not node)
            laws = {}
            for law in self.book.laws:
                if law.kind != 'setter' and not law.only:
                    laws.setdefault(law.qual, law)
            self._gives = {}
            for m in self.p.all_functions():
                if m.kind in ('method', 'function', 'static'):
                    law = laws.get(m.qual)
                    self._gives.setdefault(m.name, []).append(law is not None and bool(always(law.func.node)))
            self._gives = {n for n, v in self._gives.items() if all(v)}
        return name in self._gives

    def named(self, n):
        out = [m for m in self.p.methods_named(n)]
        for m in self.p.modules.values():
            if n in m.functions:
                out.append(m.functions[n])
        for c in self.p.classes.values():
            m = c.members.get(n)
            if m is not None and m.kind in ('property', 'recorded', 'cached'):
                out.append(m)
        return out

    def raw0(self, law, actual, deep=False, cls=None, wide=()):
        cls = cls or law.cls
        try:
            a = self.facts(actual, cls, deep=deep, wide=wide)
            b = self.facts(law.func, cls, law_side=True, deep=deep, wide=wide)
            r = self.settle(law, a, b, cls)
            if r[0] == 'diff':
                c = self.by_name(a, b)
                if c is not None and self.settle(law, c, b, cls)[0] != 'diff':
                    return self.settle(law, c, b, cls)
            return r
        except RecursionError:
            return 'unknown', 'too deep'

    def by_name(self, a, b):
        """The code's summary with the places of named tuples read by name, as the law reads them."""
        if self._tuples is None:
            self._tuples = []
            for m in self.p.modules.values():
                for name, e in m.consts.items():
                    fs = e.args[1] if isinstance(e, ast.Call) and len(e.args) == 2 and self._namedtuple(T.mk('g', m.name + ':' + name)) else None
                    if isinstance(fs, ast.Constant):
                        self._tuples.append(fs.value.replace(',', ' ').split())
                    elif isinstance(fs, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in fs.elts):
                        self._tuples.append([x.value for x in fs.elts])
        attrs, places = {}, {}
        for f, out in ((a, places), (b, attrs)):
            for t in [f.ret] + [x for e, g in f.events for x in (e, g)]:
                for x in T.walk(t):
                    if f is b and x[0] == 'a':
                        out.setdefault(x[1], set()).add(x[2])
                    elif f is a and x[0] == 'i' and x[2][0] == 'n':
                        out.setdefault(x[1], set()).add(x[2][1])
        m = {}
        for x in places:
            for fields in self._tuples:
                if attrs.get(x) and attrs[x] <= set(fields) and all(n == int(n) and 0 <= n < len(fields) for n in places[x]):
                    for n in places[x]:
                        m[T.mk('i', x, T.num(n))] = T.mk('a', x, fields[int(n)])
                    break
        if not m:
            return None
        c = copy.copy(a)
        c.ret = T.subst(a.ret, m)
        c.events = [(T.subst(e, m), T.subst(g, m)) for e, g in a.events]
        c.order = [(T.subst(e, m), T.subst(g, m)) for e, g in a.order]
        return c

    def settle(self, law, a, b, cls):
        r1, w1 = C.cmp_terms(a.ret, b.ret, self.vocab)
        if law.only and 'ret' not in law.only:
            r1 = 'same'
        sel = None
        if law.only:
            sel = lambda ch: any(o in ch for o in law.only)
        r2, w2 = C.cmp_events(a, b, self.vocab, sel)
        od = ab = None
        if 'diff' not in (r1, r2) and not law.only:
            ab = C.absent_diff(a, b, self.vocab)
        if r1 == r2 == 'same' and not law.only:
            od = C.order_diff(a, b, self.pu, cls)
        n = len(a.events) + 1
        if r1 == 'diff':
            return 'diff', 'result: ' + C.describe(w1), n
        if r2 == 'diff':
            if r1 != 'same' and self.collects(law) and law.func.name in C.describe(w2).split(' where ')[0].split(': code has')[0]:
                return 'unknown', '', n     # how what is collected is handed down is its own affair
            return 'diff', C.describe(w2), n
        if ab:
            return 'diff', 'absent: code uses %s where it may be None%s' % (T.show(ab[0]), C.describe((T.TRUE, T.FALSE, ab[1], '')).split('False', 1)[-1]), n
        if od:
            return 'diff', 'order: the law has %s before %s' % tuple(T.show(x)[:300] for x in od), n
        r = 'unknown' if 'unknown' in (r1, r2) else 'same'
        return r, '', n

    @staticmethod
    def collects(law):
        """Optional arguments that the law's text, calling itself, adds what it finds to."""
        none = {n for n, d in law.func.defaults().items() if isinstance(d, ast.Constant) and d.value is None}
        calls = [n for n in ast.walk(law.func.node) if isinstance(n, ast.Call)]
        if not any(isinstance(n.func, ast.Name) and n.func.id == law.func.name for n in calls):
            return set()
        return {n.func.value.id for n in calls if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                and n.func.value.id in none and n.func.attr in ('add', 'append', 'update', 'extend')}

    def effective(self, law):
        """The text in force: the law, or the as-is text of a known finding that the code still matches."""
        alts = self.book.asis.get(law.qual, [])
        if not alts or law.actual is None:
            return alts[0] if alts else law
        if law.qual not in self.eff:
            self.eff[law.qual] = law
            if self.own(law)[0] == 'diff':
                for alt in alts:
                    if self.own(alt)[0] != 'diff':
                        self.eff[law.qual] = alt
        return self.eff[law.qual]

    # ------------------------------------------------------------ verdicts
    def private_callees(self, law):
        """Baseline private helpers reached from a law or its function, through helpers."""
        out, todo = set(), [law.node] + ([law.actual.node] if law.actual is not None else [])
        while todo:
            node = todo.pop()
            for n in ast.walk(node):
                nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                if nm and nm.startswith('_') and not nm.startswith('__'):
                    for q, l in self.byq.items():
                        if l.private and l.name == nm and q not in out and l is not law:
                            out.add(q)
                            todo.append(l.node)
                            if l.actual is not None:
                                todo.append(l.actual.node)
        return out

    def callers(self, law):
        out = []
        for q, l in self.byq.items():
            if l is not law and l.actual is not None and any(
                    (isinstance(n, ast.Attribute) and n.attr == law.name) or (isinstance(n, ast.Name) and n.id == law.name)
                    for n in ast.walk(l.node)):
                out.append(l)
        return out

    def own(self, law):
        """Verdict of the function alone, helpers taken at their word."""
        k = (law.qual, law.asis, tuple(law.only or ()))
        if k not in self.verdicts:
            self.verdicts[k] = self._own(law)
        return self.verdicts[k]

    def _own(self, law):
        if law.actual is None:
            if law.private:
                return 'gone', 'helper no longer exists; its law is used inside its callers', 0
            return 'removed', '%s no longer exists' % law.qual, 0
        d = self.declared(law)
        if d:
            return 'diff', d, 1
        if law.qual in self.changed:
            return 'gone', 'helper changed its signature; its law is used inside its callers', 0
        if getattr(law.actual, 'is_law', False):
            return 'gone', '', 0
        if self.identical(law):
            return 'same', '', 1
        return self.raw(law, law.actual)

    def identical(self, law):
        return False

    def verdict(self, law, prop=None):
        """Final verdict for a property: (ok|unknown|violation|known, text, obligations)."""
        if prop is not None and prop not in law.props:
            law2 = copy.copy(law)
            law2.only = law.facets[prop]
            return self._verdict(law2)
        v = self._verdict(law)
        if v[0] == 'violation' and self.book.asis.get(law.qual) and law.actual is not None:
            for alt in self.book.asis[law.qual]:
                alt2 = copy.copy(alt)
                alt2.actual = law.actual
                w = self._verdict(alt2)
                if w[0] != 'violation':
                    if prop in alt.props:
                        return 'known', v[1], v[2], alt.asis
                    return w
        return v

    def _verdict(self, law):
        v = self.own(law)
        r, why, n = (v + (1,))[:3]
        if r == 'removed':
            return 'violation', why, 1
        if r == 'gone':
            return 'ok', why, 0
        helpers = [self.byq[q] for q in self.private_callees(law)]
        shaky = [h for h in helpers if self.own(self.effective(h))[0] != 'same']
        if r == 'diff' and why.startswith('declared'):
            return 'violation', why, n
        if law.private:
            if r != 'diff':
                return ('ok' if r == 'same' else 'unknown'), why, n
            for c in self.callers(law):
                cr = self.own(c)[0]
                if cr == 'same' and c is not law:
                    return 'violation', why, n
                dr = self.raw(c, c.actual, deep=True)
                if dr[0] == 'diff':
                    return 'violation', why + ' [reaches %s]' % c.qual, n
            if not self.callers(law):
                return 'violation', why, n
            return 'unknown', 'helper contract changed together with its callers: ' + why, n
        if r == 'diff':
            if shaky:
                dr = self.raw(law, law.actual, deep=True)
                if dr[0] != 'diff':
                    return ('ok' if dr[0] == 'same' else 'unknown'), 'helper contract moved', n
                return 'violation', dr[1], n
            return 'violation', why, n
        return ('ok' if r == 'same' else 'unknown'), why, n

    # ------------------------------------------------------------ declarations
    def declared(self, law):
        """Kind of member, registration and default arguments."""
        a = law.actual
        lk, ak = law.kind, a.kind
        if lk != ak and not law.private:
            pair = (lk, ak)
            if pair in (('cached', 'recorded'),):
                pass
            elif {lk, ak} <= {'method', 'static', 'class', 'function'}:
                pass
            else:
                words = {'recorded': 'a recorded figure', 'cached': 'a recorded figure, kept once computed',
                         'property': 'a plain property', 'method': 'a method'}
                return 'declared as %s where the law has %s' % (words.get(ak, ak), words.get(lk, lk))
        want, got = self._registrations(law.decs), self._registrations(a.node.decorator_list)
        if want != got:
            return 'declared with %s where the law has %s' % (got or 'no registration', want or 'none')
        ld, ad = law.func.defaults(), a.defaults()
        if True:
            for n, e in ld.items():
                if law.private and not self.left_out(law, a, n):
                    continue
                if n not in ad:
                    if law.private:
                        continue
                    if n in sum((a.params()[0], a.params()[1]), []):
                        return 'declared: argument %s has no default where the law has %s' % (n, ast.unparse(e))
                    continue
                x, y = self.const_term(a.module, ad[n], a.cls), self.const_term(law.func.module, e, law.cls)
                if x != y and C.cmp_terms(x, y, self.vocab)[0] == 'diff':
                    return 'declared: argument %s defaults to %s where the law has %s' % (n, ast.unparse(ad[n]), ast.unparse(e))
        return None

    def left_out(self, law, func, name):
        """Some call of a helper leaves the argument to its default."""
        pos, kwo, va, kw = func.params()
        if func.kind not in ('function', 'static') and pos:
            pos = pos[1:]
        for f in self.p.all_functions():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else
                                                n.func.id if isinstance(n.func, ast.Name) else None) == law.name:
                    if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg in (name, None) for k in n.keywords):
                        continue
                    if name in pos and len(n.args) > pos.index(name):
                        continue
                    return True
        return False

    def _registrations(self, decs):
        out = []
        for d in decs:
            if isinstance(d, ast.Call) and _prop_kind(d) == 'strategy_method':
                out.append('strategy_method(%s)' % ', '.join(ast.unparse(x) for x in d.args + [k.value for k in d.keywords]))
        return out

    def const_term(self, module, expr, cls=None):
        from .flow import State
        ev = Evaluator(self.p, purity=self.pu, baseline=self.bl)
        ev.cls_stack = []
        f = Func(module, ast.parse('def _():\n    pass').body[0], cls, 'function')
        ev.func, ev.cls = f, cls
        ev.stack = [f]
        return ev.ev(expr, State())

    def table(self, t):
        """Verdict for a module or class level table."""
        lm = self._module_for(t.module)
        expr, where = None, None
        if t.cls_name:
            c = self.p.classes.get(t.cls_name)
            if c is not None:
                for k in c.mro:
                    if t.name in k.attrs:
                        expr, where, mod, cls = k.attrs[t.name], k.module.rel, k.module, k
                        break
        else:
            m = self.p.modules.get(t.module)
            r = self.p.resolve_name(m, t.name) if m is not None else None
            if r is None or r[0] != 'const':
                for m2 in self.p.modules.values():
                    if t.name in m2.consts:
                        r = ('const', m2, t.name, m2.consts[t.name])
            if r is not None and r[0] == 'const':
                mod, expr, cls = r[1], r[3], None
        if expr is None:
            return 'violation', '%s no longer exists' % t.qual, t.module
        x, y = self.const_term(mod, expr, cls), self.const_term(lm, t.expr, cls)
        where = '%s:%d' % (mod.rel, expr.lineno)
        if x == y:
            return 'ok', '', where
        r, w = C.cmp_terms(x, y, self.vocab)
        if r == 'diff':
            return 'violation', C.describe(w), where
        return ('ok' if r == 'same' else 'unknown'), '', where

    def class_law(self, c):
        """Verdict for a class law: (ok|violation, text, where)."""
        k = self.p.classes.get(c.name)
        if k is None:
            return 'violation', 'class %s no longer exists' % c.name, c.name
        if c.rel == 'metaclass':
            for b in k.mro:
                for kw in b.keywords:
                    if kw.arg == 'metaclass' and ast.unparse(kw.value).split('.')[-1] == c.bases[0]:
                        return 'ok', '', k.where
            return 'violation', 'class %s does not have the metaclass %s' % (c.name, c.bases[0]), k.where
        have = {b.name for b in k.mro} | {e.split('.')[-1] for b in k.mro for e in b.ext_bases}
        for b in c.bases:
            if b not in have:
                return 'violation', 'class %s no longer extends %s' % (c.name, b), k.where
        return 'ok', '', k.where

    def overrides(self):
        """Members that an edit added to a known class, covering an inherited law.

        Yields (law, member, class): the member must meet the law it covers.
        """
        known = set(self.bl)
        for c in self.p.classes.values():
            if not any(q.startswith('%s:%s.' % (c.module.name, c.name)) for q in known) and c.name not in self.law_classes:
                continue
            for table, suffix in ((c.members, ''), (c.setters, '.setter'), (c.deleters, '.deleter')):
                for name, f in table.items():
                    if getattr(f, 'is_law', False) or f.cls is not c or f.qual in known:
                        continue
                    for b in c.mro[1:]:
                        law = self.byq.get('%s:%s.%s%s' % (b.module.name, b.name, name, suffix))
                        if law is not None:
                            yield law, f, c
                            break

    def override_verdict(self, law, f, c, prop=None):
        if law.kind != f.kind and not law.private and not {law.kind, f.kind} <= {'method', 'static', 'class'} \
                and (law.kind, f.kind) != ('cached', 'recorded'):
            return 'violation', 'overridden as %s in %s where the law has %s' % (f.kind, c.name, law.kind), 1
        l2 = copy.copy(law)
        if prop is not None and prop not in law.props:
            l2.only = law.facets[prop]
        r = self.raw(l2, f, cls=c)
        if r[0] == 'diff' and self.private_callees(law):
            r = self.raw(l2, f, deep=True, cls=c)
        if r[0] == 'diff':
            return 'violation', 'overridden in %s: %s' % (c.name, r[1]), r[2]
        return ('ok' if r[0] == 'same' else 'unknown'), '', (r + (1,))[2]
