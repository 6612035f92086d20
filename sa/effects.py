"""Interprocedural mod/ref analysis over the whole package.

For every function: which parameters (or what lies outside it) an execution
may mutate, which attribute names it may write, and which it may read.  Locals
are traced to what they may refer to (a parameter, something reachable from
one, or a fresh object), so that building and filling a local container is not
an effect, while writing through an alias of an argument is.
"""

import ast

FRESH_CALLS = {'dict', 'list', 'set', 'sorted', 'defaultdict', 'tuple', 'frozenset', 'SimpleQueue', 'sum',
               'max', 'min', 'deque', 'OrderedDict', 'zip', 'enumerate', 'reversed', 'filter', 'map', 'range',
               'len', 'str', 'int', 'float', 'bool', 'type', 'isinstance', 'hasattr', 'any', 'all', 'abs'}
GLOBAL = '<outside>'


class FuncInfo:
    __slots__ = ('comp', 'env', 'envs', 'func', 'assigned', 'params', 'calls', 'muts', 'reads', 'rets', 'first', 'sites')


class Purity:
    MUTATORS = None

    def __init__(self, program, mutators=None, memo=()):
        from . import flow
        self.p = program
        self.memo = set(memo) or MEMO
        self.mutators = mutators or flow.MUTATORS
        self.info = {}
        self.byname = {}
        for f in program.all_functions():
            self.byname.setdefault(f.name, []).append(f)
        for f in program.all_functions():
            self.info[f] = self._scan(f)
        self.ret = {f: (frozenset(), frozenset()) for f in self.info}
        self.mut = {f: set() for f in self.info}
        self.why = {f: {} for f in self.info}       # param -> (node, via)
        self.writes = {f: set() for f in self.info}
        self.reads = {f: set(i.reads) for f, i in self.info.items()}
        self._solve()
        self.impure = {f for f in self.info if self.mut[f]}
        self.impure_names = {f.name for f in self.impure if f.kind in ('method', 'function', 'static', 'class')
                             and f.name not in ('__init__', '__set__', '__get__', '__call__')}
        self.mutparams = {f: {x for x in m if x != GLOBAL} for f, m in self.mut.items()}
        self._close_reads()

    # ------------------------------------------------------------ scanning
    def _scan(self, f):
        i = FuncInfo()
        i.func = f
        pos, kwo, va, kw = f.params()
        i.params = list(pos) + list(kwo) + ([va] if va else []) + ([kw] if kw else [])
        i.first = pos[0] if pos and f.kind not in ('function', 'static') else None
        i.assigned = {}
        i.calls, i.muts, i.rets, i.reads, i.sites = [], [], [], set(), {}

        def bind(t, kind, v):
            if isinstance(t, ast.Name):
                i.assigned.setdefault(t.id, []).append((kind, v))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for k, x in enumerate(t.elts):
                    if isinstance(v, (ast.Tuple, ast.List)) and kind == 'is' and len(v.elts) == len(t.elts):
                        bind(x, kind, v.elts[k])
                    else:
                        bind(x, 'in', v)
            elif isinstance(t, ast.Starred):
                bind(t.value, 'in', v)
        comp = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.comprehension):
                comp |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        comp.add(x.id)
                    elif isinstance(x, ast.arg):
                        comp.add(x.arg)
        i.comp = comp
        i.env = None
        i.envs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, 'is', n.value)
                    self._store(i, t)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                bind(n.target, 'is', n.value)
                self._store(i, n.target)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    if isinstance(n.op, ast.BitOr):
                        i.muts.append((n.target, None, n))
                else:
                    self._store(i, n.target)
                    if isinstance(n.target, ast.Attribute):
                        i.reads.add(n.target.attr)
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, 'is', n.value)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    self._store(i, t)
            elif isinstance(n, (ast.For, ast.comprehension)):
                if isinstance(n.iter, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in n.iter.elts):
                    for x in n.iter.elts:       # written out: each element in turn
                        bind(n.target, 'is', x)
                else:
                    bind(n.target, 'in', n.iter)
            elif isinstance(n, ast.With):
                for it in n.items:
                    if it.optional_vars is not None:
                        bind(it.optional_vars, 'is', it.context_expr)
            elif isinstance(n, ast.Return) and n.value is not None:
                i.rets.append(n.value)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                i.reads.add(n.attr)
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in self.mutators and not self._own_method(f, fn):
                    i.muts.append((fn.value, self._attr_of(fn.value), n))
                elif isinstance(fn, ast.Name) and fn.id in ('setattr', 'delattr') and n.args:
                    a = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else None
                    i.muts.append((n.args[0], a, n))
                elif isinstance(fn, ast.Attribute) and fn.attr in ('fset', 'fdel', '__set__', '__delete__') and (n.args or n.keywords):
                    i.muts.append((n.args[0] if n.args else n.keywords[0].value, None, n))     # a property set or deleted by hand
                else:
                    i.calls.append(n)
        return i

    def _own_method(self, f, fn):
        if isinstance(fn.value, ast.Name) and f.cls is not None and f.params()[0][:1] == [fn.value.id]:
            m = f.cls.lookup(fn.attr)
            return m is not None
        return False

    def _store(self, i, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self._store(i, x)
        elif isinstance(t, ast.Attribute):
            i.muts.append((t.value, t.attr, t))
        elif isinstance(t, ast.Subscript):
            i.muts.append((t.value, self._attr_of(t.value), t))

    def _attr_of(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Attribute):
                return e.attr
            e = e.value
        return None

    # ------------------------------------------------------------ what an expression may refer to
    def roots(self, i, e, deep=False, seen=()):
        """Parameters (or GLOBAL) that e's value, or with deep what it contains, may be part of."""
        if isinstance(e, ast.Name):
            if i.env is not None and e.id not in i.comp and e.id in i.env:
                return set(i.env[e.id][1 if deep else 0])
            out = set()
            if e.id in i.params:
                out.add(e.id)
            vals = i.assigned.get(e.id)
            if vals:
                if (e.id, deep) in seen:
                    return out
                for kind, v in vals:
                    out |= self.roots(i, v, deep or kind == 'in', seen + ((e.id, deep),))
                return out
            if e.id in i.params:
                return out
            return {GLOBAL}
        if isinstance(e, ast.Subscript) and not deep and isinstance(e.value, ast.Name) and self._own_elements(i, e.value.id):
            return set()
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            return self.roots(i, e.value, True, seen)
        if isinstance(e, ast.Starred):
            return self.roots(i, e.value, True, seen)
        if isinstance(e, ast.IfExp):
            return self.roots(i, e.body, deep, seen) | self.roots(i, e.orelse, deep, seen)
        if isinstance(e, ast.BoolOp):
            out = set()
            for x in e.values:
                out |= self.roots(i, x, deep, seen)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.roots(i, e.value, deep, seen)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = set()
            if deep:
                for x in e.elts:
                    out |= self.roots(i, x, True, seen)
            return out
        if isinstance(e, ast.Dict):
            out = set()
            if deep:
                for x in list(e.values) + [k for k in e.keys if k is not None]:
                    out |= self.roots(i, x, True, seen)
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.roots(i, e.elt, True, seen) if deep else set()
        if isinstance(e, ast.DictComp):
            return self.roots(i, e.value, True, seen) | self.roots(i, e.key, True, seen) if deep else set()
        if isinstance(e, ast.BinOp):
            if deep and isinstance(e.op, (ast.BitOr, ast.Sub, ast.BitAnd, ast.Add)):
                return self.roots(i, e.left, True, seen) | self.roots(i, e.right, True, seen)
            return set()
        if isinstance(e, ast.Call):
            return self._call_roots(i, e, deep, seen)
        if isinstance(e, (ast.Await, ast.Yield, ast.YieldFrom)):
            return {GLOBAL}
        return set()

    def _own_elements(self, i, name):
        """A local table whose elements are all containers made here."""
        vals = i.assigned.get(name)
        if not vals or name in i.params:
            return False

        def made(v):
            if isinstance(v, (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)):
                return True
            return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('set', 'list', 'dict')
        for kind, v in vals:
            if kind != 'is':
                return False
            if isinstance(v, ast.Dict) and all(made(x) for x in v.values) and all(k is not None for k in v.keys):
                continue
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args and not v.keywords:
                continue
            if not (isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and
                    (v.func.id if isinstance(v.func, ast.Name) else v.func.attr) == 'defaultdict' and len(v.args) == 1 and
                    isinstance(v.args[0], ast.Name) and v.args[0].id in ('set', 'list', 'dict')):
                return False
        for n in ast.walk(i.func.node):
            if isinstance(n, ast.Assign) and any(self._elem_of(t, name) for t in n.targets) and not made(n.value):
                return False
            if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.withitem)):
                t = n.optional_vars if isinstance(n, ast.withitem) else n.target
                if t is not None and any(self._elem_of(x, name) for x in ast.walk(t)):
                    return False
            if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) and any(self._elem_of(x, name) for x in ast.walk(t))
                                                 for t in n.targets):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                if n.func.attr == 'update':
                    return False
                if n.func.attr in ('setdefault', 'get') and not (len(n.args) == 2 and made(n.args[1])) and not (
                        n.func.attr == 'get' and len(n.args) == 1):
                    return False
        return True

    @staticmethod
    def _elem_of(t, name):
        return isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name

    def _args_roots(self, i, e, deep, seen):
        out = set()
        for a in list(e.args) + [k.value for k in e.keywords]:
            out |= self.roots(i, a, deep, seen)
        return out

    def _call_roots(self, i, e, deep, seen):
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        if name == 'deepcopy':
            return set()
        if name == 'super':
            return {i.first} if i.first else set()
        cands, recv = self.targets(i, e)
        if cands is not None:
            out = set()
            for g in cands:
                if g.name == '__init__':
                    if deep:
                        out |= self._args_roots(i, e, True, seen)
                    continue
                rr = self.ret[g][1 if deep else 0]
                if rr:
                    m = self.bind(g, e, recv)
                    for r in rr:
                        if r == GLOBAL:
                            out.add(GLOBAL)
                        else:
                            for x in m.get(r, ()):
                                if isinstance(x, ast.AST):
                                    out |= self.roots(i, x, True, seen)
            return out
        if name in FRESH_CALLS or name in ('copy', 'union', 'difference', 'intersection', 'fromkeys') or \
                (name and name[:1].isupper()):
            if not deep:
                return set()
            out = self._args_roots(i, e, True, seen)
            if isinstance(fn, ast.Attribute):
                r = self.roots(i, fn.value, True, seen)
                out |= r - {GLOBAL}
            return out
        if isinstance(fn, ast.Attribute) and not deep and name in ('get', 'pop', 'setdefault') and isinstance(fn.value, ast.Name) and \
                self._own_elements(i, fn.value.id):
            return set()
        if isinstance(fn, ast.Attribute):
            # keys/values/items/get/pop and unknown methods: part of the receiver
            return self.roots(i, fn.value, True, seen) | (self._args_roots(i, e, deep, seen) if name in ('get', 'pop', 'setdefault') else set())
        if name in ('next', 'iter', 'getattr', 'reduce'):
            return self._args_roots(i, e, True, seen)
        return self._args_roots(i, e, deep, seen) if name is None or name not in FRESH_CALLS else set()

    # ------------------------------------------------------------ call resolution
    def targets(self, i, e):
        """(candidate functions, receiver expression) or (None, _) when not the package's."""
        k = id(e)
        r = i.sites.get(k)
        if r is None:
            r = i.sites[k] = self._targets(i, e)
        return r

    def _targets(self, i, e):
        f, fn = i.func, e.func
        if isinstance(fn, ast.Name):
            if fn.id in i.params or fn.id in i.assigned:
                return None, None
            r = self.p.resolve_name(f.module, fn.id)
            if r is None:
                return None, None
            if r[0] == 'func':
                return [r[1]], None
            if r[0] == 'class':
                init = r[1].lookup('__init__')
                return ([init] if init is not None else []), None
            return None, None
        if not isinstance(fn, ast.Attribute):
            return None, None
        name = fn.attr
        v = fn.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
            m = f.cls.lookup(name, after=f.cls)
            cs = [m] if m is not None else []
            for c in self.p.subclasses(f.cls.name):
                m2 = c.lookup(name, after=f.cls)
                if m2 is not None and m2 not in cs:
                    cs.append(m2)
            return (cs, v) if cs else (None, v)
        if isinstance(v, ast.Name) and v.id == i.first and f.cls is not None:
            m = f.cls.lookup(name)
            cs = [m] if m is not None else []
            for c in self.p.subclasses(f.cls.name):
                m2 = c.lookup(name)
                if m2 is not None and m2 not in cs:
                    cs.append(m2)
            cs = [c for c in cs if c.kind in ('method', 'static', 'class')]
            return (cs, v) if cs else (None, v)
        r = self.p.resolve_expr(f.module, fn)
        if r is not None:
            if r[0] == 'func':
                return [r[1]], None
            if r[0] == 'class':
                init = r[1].lookup('__init__')
                return ([init] if init is not None else []), None
            return None, None
        rb = self.p.resolve_expr(f.module, v) if isinstance(v, (ast.Name, ast.Attribute)) else None
        if rb is not None and rb[0] == 'class' and not (isinstance(v, ast.Name) and v.id in i.params):
            m = rb[1].lookup(name)
            return ([m], None) if m is not None else (None, v)
        if rb is not None and rb[0] in ('mod', 'ext'):
            return None, v
        cs = [m for m in self.p.methods_named(name) if m.kind in ('method', 'static', 'class')]
        return (cs, v) if cs else (None, v)

    def bind(self, g, e, recv):
        """parameter name -> expressions bound to it at this call."""
        pos, kwo, va, kw = g.params()
        m = {}
        p = list(pos)
        if g.kind not in ('function', 'static') and p:
            if recv is not None:
                m[p[0]] = [recv]
                p = p[1:]
            elif g.name == '__init__':
                m[p[0]] = []
                p = p[1:]
        k = 0
        for a in e.args:
            if isinstance(a, ast.Starred):
                for n in p[k:] + ([va] if va else []):
                    m.setdefault(n, []).append(a)
            elif k < len(p):
                m.setdefault(p[k], []).append(a)
                k += 1
            elif va:
                m.setdefault(va, []).append(ast.List([a], ast.Load()))
        for kwd in e.keywords:
            if kwd.arg is None:
                for n in p + kwo:
                    m.setdefault(n, []).append(ast.Starred(kwd.value, ast.Load()))
                if kw:
                    m.setdefault(kw, []).append(ast.Dict([None], [kwd.value]))
            elif kwd.arg in p or kwd.arg in kwo:
                m.setdefault(kwd.arg, []).append(kwd.value)
            elif kw:
                m.setdefault(kw, []).append(ast.List([kwd.value], ast.Load()))
        return m

    # ------------------------------------------------------------ fixpoint
    # ---- reaching definitions: what each local may refer to at each statement
    def _flow(self, i):
        i.envs = {}
        env = {p: (frozenset([p]), frozenset([p])) for p in i.params}
        self._fblock(i, i.func.node.body, env)
        i.env = None

    def _at(self, i, env, node):
        for x in ast.walk(node):
            if isinstance(x, (ast.Call, ast.Attribute, ast.Subscript, ast.Name)):
                old = i.envs.get(id(x))
                i.envs[id(x)] = self._join(old, env) if old is not None and old != env else dict(env)

    @staticmethod
    def _join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            out[k] = x if y is None else y if x is None else (x[0] | y[0], x[1] | y[1])
        return out

    def _fbind(self, i, env, t, v, elem=False):
        if isinstance(t, ast.Name):
            i.env = env
            r1 = frozenset(self.roots(i, v, True))
            r0 = r1 if elem else frozenset(self.roots(i, v))
            env[t.id] = (r0, r1 | r0)
        elif isinstance(t, (ast.Tuple, ast.List)):
            same = isinstance(v, (ast.Tuple, ast.List)) and not elem and len(v.elts) == len(t.elts)
            if same:
                i.env = env
                vals = [(frozenset(self.roots(i, x)), frozenset(self.roots(i, x, True))) for x in v.elts]
                for x, y, (r0, r1) in zip(t.elts, v.elts, vals):
                    if isinstance(x, ast.Name):
                        env[x.id] = (r0, r0 | r1)
                    else:
                        self._fbind(i, env, x, y, elem)
            else:
                for x in t.elts:
                    self._fbind(i, env, x, v, True)
        elif isinstance(t, ast.Starred):
            self._fbind(i, env, t.value, v, True)

    def _fblock(self, i, body, env):
        """Environment after the block, or None when it does not fall through."""
        for s in body:
            if env is None:
                # dead or handled elsewhere: keep going with nothing known
                return None
            if isinstance(s, ast.If):
                self._at(i, env, s.test)
                a = self._fblock(i, s.body, dict(env))
                b = self._fblock(i, s.orelse, dict(env))
                env = self._join(a, b)
            elif isinstance(s, (ast.For, ast.While)):
                for _ in range(2):
                    e2 = dict(env)
                    if isinstance(s, ast.For):
                        self._at(i, env, s.iter)
                        if isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts and not any(isinstance(x, ast.Starred) for x in s.iter.elts):
                            turns = []
                            for x in s.iter.elts:
                                turns.append(dict(env))
                                self._fbind(i, turns[-1], s.target, x)
                            e2 = turns[0]
                            for x in turns[1:]:
                                e2 = self._join(e2, x)
                        else:
                            self._fbind(i, e2, s.target, s.iter, True)
                        self._at(i, e2, s.target)
                    else:
                        self._at(i, env, s.test)
                    out = self._fblock(i, s.body, e2)
                    # break/continue may leave from anywhere inside: join what was seen
                    env = self._join(env, out if out is not None else e2)
                a = self._fblock(i, s.orelse, dict(env)) if s.orelse else env
                env = self._join(env, a)
            elif isinstance(s, ast.Try):
                a = self._fblock(i, s.body, dict(env))
                start = self._join(dict(env), a)
                if a is not None and s.orelse:
                    a = self._fblock(i, s.orelse, dict(a))
                for h in s.handlers:
                    a = self._join(a, self._fblock(i, h.body, dict(start)))
                if s.finalbody:
                    f = self._fblock(i, s.finalbody, dict(self._join(start, a)))
                    a = f if a is not None else None
                env = a
            elif isinstance(s, ast.With):
                for it in s.items:
                    self._at(i, env, it.context_expr)
                    if it.optional_vars is not None:
                        self._fbind(i, env, it.optional_vars, it.context_expr)
                env = self._fblock(i, s.body, env)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self._at(i, env, s)
                env[s.name] = (frozenset(), frozenset())
            else:
                self._at(i, env, s)
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        self._fbind(i, env, t, s.value)
                        if isinstance(t, ast.Subscript) or isinstance(t, ast.Attribute):
                            # what is stored becomes reachable from the local container
                            b = t
                            while isinstance(b, (ast.Subscript, ast.Attribute)):
                                b = b.value
                            if isinstance(b, ast.Name) and b.id in env:
                                i.env = env
                                r = frozenset(self.roots(i, s.value, True) | self.roots(i, s.value))
                                env[b.id] = (env[b.id][0], env[b.id][1] | r)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    self._fbind(i, env, s.target, s.value)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                        and s.value.func.attr in self.mutators:
                    b = s.value.func.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id in env:
                        i.env = env
                        r = frozenset()
                        for a in list(s.value.args) + [k.value for k in s.value.keywords]:
                            r |= frozenset(self.roots(i, a, True))
                        env[b.id] = (env[b.id][0], env[b.id][1] | r)
                elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    if isinstance(s, (ast.Break, ast.Continue)):
                        return env
                    return None
        return env

    def _envfor(self, i, node):
        x = node
        while isinstance(x, ast.Starred):
            x = x.value
        i.env = i.envs.get(id(x))
        if i.env is None:
            for y in ast.walk(x):
                if id(y) in i.envs:
                    i.env = i.envs[id(y)]
                    break

    def _solve(self):
        todo = True
        rounds = 0
        while todo and rounds < 12:
            todo = False
            rounds += 1
            for f, i in self.info.items():
                self._flow(i)
                r0, r1 = set(), set()
                for x in () if f.name in OWN_RESULT else i.rets:
                    self._envfor(i, x)
                    r0 |= self.roots(i, x)
                    r1 |= self.roots(i, x, True)
                new = (frozenset(r0), frozenset(r1 | r0))
                if new != self.ret[f]:
                    self.ret[f] = new
                    todo = True
        for f, i in self.info.items():
            own_init = f.name == '__init__'
            for target, attr, node in i.muts:
                self._envfor(i, target)
                rs = self.roots(i, target)
                kw = f.params()[3]
                if kw and isinstance(target, ast.Name) and target.id == kw:
                    rs = rs - {kw}      # **kwargs is always a dict of the call's own
                if not rs:
                    continue
                for r in rs:
                    if attr in self.memo:
                        continue
                    if r not in self.mut[f]:
                        self.mut[f].add(r)
                        self.why[f][r] = (node, None)
                if attr is not None:
                    self.writes[f].add(attr)
        todo = True
        while todo:
            todo = False
            for f, i in self.info.items():
                for e in i.calls:
                    cands, recv = self.targets(i, e)
                    self._envfor(i, e)
                    for g in cands or ():
                        gm = self.mut[g]
                        if not gm or g.name in OWN_ARGS:
                            continue
                        b = self.bind(g, e, recv)
                        hit = False
                        for x in gm:
                            if x == GLOBAL:
                                rs = {GLOBAL}
                            else:
                                rs = set()
                                for a in b.get(x, ()):
                                    ra = self.roots(i, a, isinstance(a, (ast.Starred, ast.List, ast.Dict)))
                                    rs |= ra
                                    if ra and isinstance(a, ast.Attribute) and a.attr not in self.memo and a.attr not in self.writes[f]:
                                        self.writes[f].add(a.attr)
                                        todo = True
                            for r in rs:
                                hit = True
                                if r not in self.mut[f]:
                                    self.mut[f].add(r)
                                    self.why[f][r] = (e, g)
                                    todo = True
                        if hit and not self.writes[g] <= self.writes[f]:
                            self.writes[f] |= self.writes[g]
                            todo = True

    def _close_reads(self):
        changed = True
        while changed:
            changed = False
            for f, i in self.info.items():
                cur = self.reads[f]
                n0 = len(cur)
                for e in i.calls:
                    for g in self.targets(i, e)[0] or ():
                        cur |= self.reads[g]
                for n in list(cur):
                    for g in self.byname.get(n, ()):
                        if g.kind in ('property', 'recorded', 'cached'):
                            cur |= self.reads[g]
                if len(cur) != n0:
                    changed = True
        self.prop_reads = {}
        for f in self.reads:
            if f.kind in ('property', 'recorded', 'cached'):
                self.prop_reads.setdefault(f.name, set()).update(self.reads[f])
        self._closed = {}

    # ------------------------------------------------------------ queries
    def hands_back(self, f, n, depth=0):
        """f may return (or yield, or keep in a local it returns) the very object given as n."""
        def bare(e):
            if isinstance(e, ast.Name):
                return {e.id}
            if isinstance(e, (ast.Attribute, ast.Subscript, ast.Compare, ast.Constant)):
                return set()
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Name) and e.func.id in FRESH_CALLS:
                    return set()
                gs = [g for g in self.byname.get(e.func.id, ()) if g.kind == 'function'] if isinstance(e.func, ast.Name) else []
                if len(gs) == 1 and depth < 4 and gs[0] is not f and not any(isinstance(a, ast.Starred) for a in e.args):
                    pos = gs[0].params()[0]
                    pairs = list(zip(pos, e.args)) + [(k.arg, k.value) for k in e.keywords]
                    return {x for p, a in pairs for x in bare(a) if p is None or self.hands_back(gs[0], p, depth + 1)}
                return {x for a in e.args + [k.value for k in e.keywords] for x in bare(a)}
            if isinstance(e, ast.IfExp):
                return bare(e.body) | bare(e.orelse)
            return {x for c in ast.iter_child_nodes(e) for x in bare(c)} if isinstance(e, ast.AST) else set()
        names, more = {n}, True
        while more:
            more = False
            for a in ast.walk(f.node):
                if isinstance(a, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and a.value is not None and bare(a.value) & names:
                    for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and x.id not in names:
                                names.add(x.id)
                                more = True
        return any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) and x.value is not None and bare(x.value) & names
                   for x in ast.walk(f.node))

    def mods_of(self, name, cls=None):
        """Attribute names whose value may change over a call of `name` (on an object of
        the class given: figures that class, and those made from it, do not work out
        are kept in plain attributes, which only a write changes)."""
        r = self._closed.get((name, cls))
        if r is None:
            w = set()
            for g in self.byname.get(name, ()):
                w |= self.writes[g]
            own = None
            if cls is not None:
                own = {n for c in set(cls.mro) | set(self.p.subclasses(cls.name)) for n, m in c.members.items()
                       if m.kind in ('property', 'recorded', 'cached')}
            for p, rd in self.prop_reads.items():
                if rd & w and (own is None or p in own):
                    w = w | {p}
            r = self._closed[name, cls] = frozenset(w)
        return r

    def reads_of(self, name):
        r = set()
        for g in self.byname.get(name, ()):
            r |= self.reads[g]
        return r

    def recorded_reads(self, cls):
        """What recording the figures of an object of this class reads."""
        out = set()
        for f in self.reads:
            if f.kind in ('recorded', 'cached') and f.cls is not None and (
                    cls is None or f.cls in cls.mro or cls in f.cls.mro):
                out |= self.reads[f]
        return out

    def chain(self, f, param, depth=0):
        """Call chain from f to the construct that mutates `param`."""
        node, g = self.why[f].get(param, (None, None))
        if node is None or depth > 12:
            return []
        here = '%s:%d %s' % (f.module.rel, node.lineno, f.short)
        if g is None:
            return [here]
        for x in self.mut[g]:
            if x in self.why[g]:
                return [here] + self.chain(g, x, depth + 1)
        return [here]


# functions that hand out a table of their own (a documented contract of the
# callables they dispatch to; the package's own ones are checked by a rule)
OWN_RESULT = {'_get_transactions'}

# functions that only move things between sets their caller has just made
OWN_ARGS = {'_swap_saturated'}

# lazily filled memo tables: filling one changes no observable value
MEMO = {'_accum', '_tax_brackets'}

# the functions that fill them: where one is called, the call counts
FILLERS = {'add_accum', 'add_brackets'}
