"""Flow-sensitive value-graph construction (gated def-use, joined at merges).

`Evaluator.run(func)` summarises one function: the term it returns and the
ordered tree of its effects (attribute stores, container mutations, impure
calls, raises), both in the canonical vocabulary of `terms`.  Helper calls
are replaced by the helper's own summary so that helper boundaries do not
matter.  No code of the analysed program is run, no paths are handed to a
solver: branches are joined into decision diagrams, loops into reductions.
"""

import ast
import builtins
import copy

from . import terms as T
from .terms import (mk, NONE, TRUE, FALSE, ZERO, ONE, const, num, key, mk_ite, b_and, b_or, b_not,
                    truthy, isnone, add, sub, mul, div, neg, lt, le, eq, mk_max, mk_min,
                    mk_index, fresh, show)

SELF = mk('p', 'self')
FRESH0 = 0      # first number of fresh variables (results must not depend on it)
END = mk('end',)
BRK = mk('brk',)
CONT = mk('cont',)
UNDEF = mk('undef',)

MUTATORS = {'append', 'add', 'update', 'clear', 'pop', 'popitem', 'remove', 'discard', 'extend',
            'insert', 'setdefault', 'sort', 'reverse', 'put', 'add_edge', 'add_node', 'remove_edge',
            'intersection_update', 'difference_update', 'symmetric_difference_update', 'move_to_end',
            'appendleft', 'popleft', '__setitem__', '__delitem__'}
def _exactly(a, b):
    """type(x) is C, for a class C."""
    for x, c in ((a, b), (b, a)):
        if x[0] == 'call' and x[1] == ('b', 'type') and len(x[2]) == 1 and c[0] == 'g' and c[1].split(':')[-1][:1].isupper():
            return mk('isinst', x[2][0], mk('op', 'exactly', c))
    return None


PURE_BUILTINS = {'len', 'sum', 'min', 'max', 'sorted', 'abs', 'isinstance', 'hasattr', 'getattr',
                 'any', 'all', 'set', 'list', 'dict', 'tuple', 'frozenset', 'range', 'int', 'float',
                 'str', 'bool', 'id', 'type', 'callable', 'issubclass', 'round', 'iter', 'next',
                 'zip', 'enumerate', 'map', 'filter', 'reversed', 'hash', 'repr', 'pow', 'super',
                 'object', 'divmod', 'print', 'vars', 'bytes', 'ord', 'chr', 'ValueError',
                 'TypeError', 'KeyError', 'AttributeError', 'NotImplementedError', 'format'}
# private methods of these classes are summarised one by one (too large to inline)
ENTRY = {}      # operations that give a table or, asked with this parameter, its entry (their laws say so)
TRANSPARENT = {}    # properties that only hand out a private attribute, by their laws
HEAVY = {'TransactionTraversal'}
CONTAINER_HEADS = {'dict', 'list', 'set', 'copy', 'listc', 'setc', 'dictc', 'toset', 'tolist',
                   'store', 'union', 'unionover', 'upd', 'sorted'}


class State:
    __slots__ = ('env', 'heap', 'ver', 'eff')

    def __init__(self, env=None):
        self.env = env if env is not None else {}
        self.heap = {}
        self.ver = {}
        self.eff = []

    def fork(self):
        s = State(dict(self.env))
        s.heap = dict(self.heap)
        s.ver = dict(self.ver)
        return s


from .effects import Purity, FILLERS   # noqa: E402  (needs MUTATORS)


class Summary:
    def __init__(self, ret, eff, state):
        self.ret = ret
        self.eff = eff
        self.state = state


class Evaluator:
    def __init__(self, program, purity=None, atoms=(), inline_public=(), strip_precision=True,
                 baseline=None, max_depth=8, inline_props=(), inline_super=False, keep_calls=(), deep=False):
        self.deep = deep
        self.p = program
        self.purity = purity or Purity(program)
        self.atoms = set(atoms)                 # names never inlined
        self.inline_public = set(inline_public)  # public names inlined anyway
        self.inline_props = set(inline_props)
        self.inline_super = inline_super
        self.strip_precision = strip_precision
        self.baseline = baseline
        self.max_depth = max_depth
        self.keep_calls = set(keep_calls) | FILLERS
        self.stack = []
        self.pend = []
        self.localdefs = {}
        self.excn = 0
        self.loops = 0
        self.cls = None
        self.func = None
        self.swap = {}          # helper -> law text used in its place
        self.optional = frozenset()     # figures that may be absent (None)
        self.again = None               # the function analysed, if it starts over with other arguments
        self.ctx = []           # conditions under which the current expression is evaluated
        self.needs = []         # (figure, conditions): used where it has to be there
        self.excused = 0        # inside a guard that catches the failure, or a body run later

    # ------------------------------------------------------------ what has to be there
    def need(self, t):
        """The operation at hand fails if t is None."""
        if self.excused or not self.optional or T.nleaves(t) > 64:
            return
        for l, path in T.leaves(t):
            l = _base(l)
            if l in self.optional:
                self.needs.append((l, tuple(self.ctx) + tuple(a if s else b_not(a) for a, s in path)))

    def under(self, c, f, *args):
        self.ctx.append(c)
        try:
            return f(*args)
        finally:
            self.ctx.pop()

    # ------------------------------------------------------------ entry
    def run(self, func, cls=None, args=None, self_term=SELF):
        """Summary of a function with symbolic parameters."""
        self.cls_stack = []
        self.excn = 0
        T._fresh[0] = FRESH0
        st = State()
        pos, kwo, va, kw = func.params()
        names = list(pos)
        if func.kind not in ('function', 'static') and names:
            st.env[names[0]] = self_term
            names = names[1:]
        for n in names + kwo + ([va] if va else []):
            st.env[n] = mk('p', n)
        if kw:
            st.env[kw] = mk('copy', mk('p', kw))    # a table of the call's own
        if args:
            st.env.update(args)
        return self._body(func, cls or func.cls, st)

    def _body(self, func, cls, st):
        saved = (self.cls, self.func)
        self.cls, self.func = cls, func
        self.stack.append(func)
        try:
            out = self.block(func.node.body, st, ())
        finally:
            self.stack.pop()
            self.cls, self.func = saved
        ret = T.subst(out, {END: NONE}) if out == END or T.contains(out, lambda x: x == END) else out
        r = Summary(ret, st.eff, st)
        r.needs = self.needs
        return r

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, cont=()):
        """Execute stmts abstractly; returns END, CONT, BRK, a return value, or a diagram of these."""
        stmts = list(stmts) + list(cont)
        i = 0
        while i < len(stmts):
            s = stmts[i]
            rest = stmts[i + 1:]
            i += 1
            mark = len(self.pend)
            if isinstance(s, ast.If):
                c = self.cond(s.test, st)
                if len(self.pend) > mark:
                    o, _ = self._take_pend(mark)
                    n = ast.If(_Term(c), s.body, s.orelse)
                    return self._gated(o, [n] + rest, st)
                if c == TRUE:
                    return self.block(list(s.body) + rest, st)
                if c == FALSE:
                    return self.block(list(s.orelse) + rest, st)
                s1, s2 = st.fork(), st.fork()
                self._assume(c, True, s1)
                self._assume(c, False, s2)
                o1 = self.under(c, self.block, s.body, s1)
                o2 = self.under(b_not(c), self.block, s.orelse, s2)
                if rest and o1 == END and o2 == END:
                    self._merge(c, st, s1, s2)
                    continue
                if rest and self._exits(o1) and o2 == END:
                    o2 = self.under(b_not(c), self.block, rest, s2)
                    rest = []
                elif rest and self._exits(o2) and o1 == END:
                    o1 = self.under(c, self.block, rest, s1)
                    rest = []
                self._merge(c, st, s1, s2)
                o = mk_ite(c, o1, o2)
            elif isinstance(s, ast.For):
                o = self._for(s, st)
            elif isinstance(s, _Turn):
                self._assign_elem(s.target, s.term, st)
                o = _cont_to_end(self.block(s.body, st))
            elif isinstance(s, ast.While):
                o = self._while(s, st)
            elif isinstance(s, ast.Try):
                o = self._try(s, st)
            elif isinstance(s, ast.With):
                for item in s.items:
                    v = self.ev(item.context_expr, st)
                    st.eff.append(('with', v))
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, mk('ctx', v), st)
                return self.block(list(s.body) + rest, st)
            elif isinstance(s, ast.Return):
                v = self.ev(s.value, st) if s.value is not None else NONE
                if len(self.pend) > mark:
                    o, _ = self._take_pend(mark)
                    return _replace_end(o, v)
                return v
            elif isinstance(s, ast.Raise):
                v = self.ev(s.exc, st) if s.exc is not None else NONE
                nm = v[1] if v[0] == 'call' else v
                st.eff.append(mk('raise', nm))
                return mk('raise', nm)
            elif isinstance(s, ast.Break):
                return BRK
            elif isinstance(s, ast.Continue):
                return CONT
            else:
                self.stmt(s, st)
                if len(self.pend) == mark:
                    continue
                o, (n, heap) = self._take_pend(mark)
                g = _falls(o)
                # what the statement does after the call that may raise
                tail = st.eff[n:]
                if tail:
                    st.eff[n:] = [('if', g, tuple(tail), ())]
                for k, v in list(st.heap.items()):
                    if heap.get(k) != v:
                        st.heap[k] = mk_ite(g, v, heap.get(k) or mk('a', k[0], k[1]))
            if o == END:
                continue
            if self._exits(o) or not rest:
                return o
            return self._gated(o, rest, st)
        return END

    def _take_pend(self, mark):
        """Combined outcome of the raises met in helpers during one statement."""
        items = self.pend[mark:]
        del self.pend[mark:]
        o = END
        for r, _, _ in reversed(items):
            o = _replace_end(r, o)
        return o, (items[-1][1], items[-1][2])

    def _gated(self, o, rest, st):
        """Some paths have left (o): the rest runs under the fall-through condition."""
        g = _falls(o)
        s1, s2 = st.fork(), st.fork()
        t = self.under(g, self.block, rest, s1)
        self._merge(g, st, s1, s2)
        return _replace_end(o, t)

    def _exits(self, o):
        return not _has_leaf(o, END)

    def _assume(self, c, val, st):
        pass

    def _merge(self, c, st, s1, s2):
        def val(x, y):
            return mk_ite(c, x, y)
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            if a == b:
                st.env[k] = a
            elif a == UNDEF or b == UNDEF:
                st.env[k] = b if a == UNDEF else a
            else:
                st.env[k] = val(a, b)
        for k in set(s1.heap) | set(s2.heap):
            a = s1.heap.get(k)
            b = s2.heap.get(k)
            if a is None:
                a = mk('a', k[0], k[1])
            if b is None:
                b = mk('a', k[0], k[1])
            st.heap[k] = a if a == b else val(a, b)
        even = all(s1.ver.get(k) == s2.ver.get(k) for k in set(s1.ver) | set(s2.ver) if k[0] == 'mods')
        for k in set(s1.ver) | set(s2.ver):
            if k[0] == 'cell':
                # an entry just filled, if no other way to this version left it otherwise
                a, b = s1.ver.get(k, 0), s2.ver.get(k, 0)
                if even and a and b and a[0] == b[0]:
                    st.ver[k] = (a[0], mk_ite(c, a[1], b[1]))
                else:
                    st.ver[k] = a if even and b == 0 else b if even and a == 0 else None
            elif k[0] == 'mods':
                a, b = s1.ver.get(k, ()), s2.ver.get(k, ())
                st.ver[k] = a if len(a) >= len(b) else b
            else:
                a, b = s1.ver.get(k, 0), s2.ver.get(k, 0)
                if a != b and T.nleaves(c) <= 4 and _depth(a) + _depth(b) < 2:
                    st.ver[k] = (c, a, b)       # changed on one way through only
                else:
                    st.ver[k] = a if a == b else max(_most(a), _most(b))
        if s1.eff or s2.eff:
            st.eff.append(('if', c, tuple(s1.eff), tuple(s2.eff)))

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, ast.YieldFrom):
                one = ast.Name('*each', ast.Load())
                loop = ast.For(ast.Name('*each', ast.Store()), s.value.value, [ast.Expr(ast.Yield(one))], [])
                self._for(ast.fix_missing_locations(ast.copy_location(loop, s)), st)
                return
            if isinstance(s.value, ast.Yield):
                v = self.ev(s.value.value, st) if s.value.value is not None else NONE
                st.eff.append(('yield', v))
                return
            self.ev(s.value, st)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st)
        elif isinstance(s, ast.AugAssign):
            load = _as_load(s.target)
            cur = self.ev(load, st)
            rhs = self.ev(s.value, st)
            self.need(cur)
            self.need(rhs)
            if isinstance(s.op, ast.BitOr):
                new = T.mk_union([cur, rhs])
            else:
                new = self.binop(s.op, cur, rhs)
            self.assign(s.target, new, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    o = self.ev(t.value, st)
                    if isinstance(t.value, ast.Name) and _table(o):
                        self._setlocal(t.value.id, o, T.mk_delkey(o, self.ev(t.slice, st)), st)
                        continue
                    st.eff.append(('delitem', _base(o), self.ev(t.slice, st)))
                    self.bump(o, st)
                elif isinstance(t, ast.Attribute):
                    o = self.ev(t.value, st)
                    self.eff_del(o, t.attr, st)
                elif isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
        elif isinstance(s, ast.FunctionDef):
            st.env[s.name] = self.closure(s.args, s.body, st, name=s.name)
            if not s.decorator_list and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                self.localdefs[s.name] = s
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.Assert)):
            return
        else:
            st.eff.append(mk('opaque', type(s).__name__))

    def eff_del(self, o, attr, st):
        st.eff.append(('delattr', _base(o), attr))
        st.heap.pop((_base(o), attr), None)
        self.bump(mk('a', _base(o), attr), st)

    # ------------------------------------------------------------ stores
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk('opaque', mk('slice', v, num(i))), st)
                else:
                    self.assign(e, mk_index(v, num(i)), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.set_attr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.set_item(t.value, o, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def set_attr(self, o, attr, v, st):
        o = _base(o)
        cls = self.cls_of(o)
        setter = cls.lookup_setter(attr) if cls else None
        getter = cls.lookup(attr) if cls else None
        st.eff.append(mk('set', o, attr, v))
        if getter is not None and getter.kind == 'property' and setter is not None and self.should_inline(setter, prop=True):
            # private / new property: look through its setter
            st.eff.pop()
            self.inline(setter, cls, o, [v], {}, st)
            return
        st.heap[(o, attr)] = v
        st.ver.pop(mk('a', o, attr), None)
        for n in [n for n in st.ver if n[0] == 'cell' and n[1] == mk('a', o, attr)]:
            del st.ver[n]

    def set_item(self, node, o, k, v, st):
        if isinstance(node, ast.Name) and _fresh_container(o):
            if o == mk('dict', ()):
                self._setlocal(node.id, o, mk('dict', ((k, v),)), st)
            else:
                self._setlocal(node.id, o, T.mk_store(o, k, v), st)
            return
        st.eff.append(('setitem', _base(o), k, v))
        self.bump(o, st)
        o = _base(o)
        if o[0] == 'a' and o[1] == SELF or o[0] == 'call' and o[1] == _GETATTR:
            for n in _versions(st.ver[o]):
                st.ver[('cell', o, n)] = (k, v)

    def _setlocal(self, name, old, new, st):
        st.env[name] = new

    def bump(self, o, st):
        o = _base(o)
        if o[0] == 'ite' and T.nleaves(o) <= 12:
            for x in {l for l, _ in T.leaves(o)}:
                self.bump(x, st)
            return
        if o[0] in ('n', 'c', 'copy', 'dict', 'list', 'set'):
            return
        self._renew(o, st)
        if o == SELF:
            st.heap = {k: v for k, v in st.heap.items() if k[0] != o}

    @staticmethod
    def _renew(o, st):
        """A new version of an object; nothing is known of its entries."""
        st.ver[o] = _next(st.ver.get(o, 0))
        for n in _versions(st.ver[o]):
            st.ver[('cell', o, n)] = None

    def vref(self, t, st):
        if t[0] == 'ite' and T.nleaves(t) <= 12:
            return T.lift(lambda x: self.vref(x, st), t)
        n = st.ver.get(t, 0)
        if t[0] == 'a':
            ms = st.ver.get(('mods', _base(t[1])))
            if ms:
                m = sum(1 for s in ms if t[2] in s)
                for _ in range(m):
                    n = _next(n)

        def at(n):
            if isinstance(n, tuple):
                return mk_ite(n[0], at(n[1]), at(n[2]))
            return mk('v', t, n) if n else t
        return at(n)

    def bump_call(self, recv, name, st):
        """State of the receiver changed by a call: only what the callee may write."""
        b = _base(recv)
        mods = self.purity.mods_of(name, self.cls_of(b))
        k = ('mods', b)
        st.ver[k] = st.ver.get(k, ()) + (mods,)
        for kk in [kk for kk in st.heap if kk[0] == b and kk[1] in mods]:
            del st.heap[kk]
        if b != SELF:
            self._renew(b, st)

    # ------------------------------------------------------------ loops
    def _carried(self, s, st):
        names = set()
        attrs = set()
        for n in ast.walk(ast.Module(body=list(s.body), type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,)):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                try:
                    if isinstance(n.value, ast.Name) and n.value.id in st.env:
                        attrs.add((_base(st.env[n.value.id]), n.attr))
                except KeyError:
                    pass
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                names.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                    and isinstance(n.func.value, ast.Name):
                names.add(n.func.value.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
        outer = set()
        for n in ast.walk(ast.Module(body=list(s.body), type_ignores=[])):
            if isinstance(n, ast.Call):
                ns, ats = self._helper_writes(n, st, ())
                names |= ns
                attrs |= ats
                if isinstance(n.func, ast.Name) and n.func.id in self.localdefs:
                    outer |= {y for x in ast.walk(self.localdefs[n.func.id]) if isinstance(x, ast.Nonlocal) for y in x.names}
        rebound = outer | {n.id for n in ast.walk(ast.Module(body=list(s.body), type_ignores=[]))
                   if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names = {n for n in names if n in rebound or (n in st.env and _fresh_container(st.env[n]))}
        if isinstance(s, ast.For):
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    names.discard(n.id)
        return {n for n in names if n in st.env and st.env[n] is not UNDEF}, attrs

    def _helper_writes(self, call, st, seen):
        """Containers and own attributes that a helper read in place fills or sets."""
        f = call.func
        m, skip = None, 0
        if isinstance(f, ast.Name):
            ld = self.localdefs.get(f.id)
            if ld is not None and f.id in st.env:
                names, attrs = set(), set()
                own = {a.arg for a in ast.walk(ld.args) if isinstance(a, ast.arg)}
                binds = _arg_names(ld.args, call, 0)
                for p in _filled(ld.body):
                    names.add(binds.get(p, p) if p in own else p)
                for n in ast.walk(ast.Module(body=list(ld.body), type_ignores=[])):
                    if isinstance(n, ast.Nonlocal):
                        names |= set(n.names)
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                            and n.value.id in st.env and n.value.id not in own:
                        attrs.add((_base(st.env[n.value.id]), n.attr))
                return names, attrs
            if f.id not in st.env:
                r = self.p.resolve_name(self.func.module, f.id)
                m = r[1] if r and r[0] == 'func' else None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.cls is not None \
                and st.env.get(f.value.id) == SELF:
            m = self.cls.lookup(f.attr)
            if m is not None and m.kind == 'static':
                skip = 0
            elif m is not None and m.kind in ('method', 'class'):
                skip = 1
            else:
                m = None
        if m is None or m in seen or not self.should_inline(m):
            return set(), set()
        binds = _arg_names(m.node.args, call, skip)
        names = {binds[p] for p in _filled(m.node.body) if p in binds}
        attrs = set()
        pos = m.params()[0]
        me = pos[0] if skip and pos else None
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                if n.value.id == me:
                    attrs.add((SELF, n.attr))
                elif n.value.id in binds and binds[n.value.id] in st.env:
                    attrs.add((_base(st.env[binds[n.value.id]]), n.attr))
            elif isinstance(n, ast.Call) and n is not call and me is not None and isinstance(n.func, ast.Attribute) \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                sub = State({me: SELF})
                ns, ats = self._helper_writes(n, sub, seen + (m,))
                attrs |= ats
                names |= {binds[x] for x in ns if x in binds}
        return names, attrs

    def _for(self, s, st):
        it = self.ev(s.iter, st)
        self.need(it)
        elts = _literal(it)
        if elts:
            # unroll a literal sequence
            if not any(isinstance(n, (ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b)):
                body = []
                for i, e in enumerate(elts):
                    body.append(_Bind(s.target, e))
                    body.extend(_by_source(s, i))
                return self.block(body + s.orelse, st)
            return _brk_to_end(self.block([_Turn(s.target, e, s.body) for e in elts] + s.orelse, st))
        if it[0] == 'cat' and not s.orelse and not any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
            parts = [(x, _literal(x) if x[0] in ('list', 'tuple') else None) for x in it[1:]]
            if any(e for _, e in parts):
                # what comes first, then what comes after
                body = []
                for x, e in parts:
                    body += [_Turn(s.target, y, s.body) for y in e] if e else [ast.For(s.target, _Term(x), s.body, [])]
                return self.block(body, st)
        if it[0] == 'a' and it[2] == '__mro__' and not s.orelse and not getattr(s, 'rest', False) and _search_only(s.body):
            # a class comes first in its own order of classes
            rest = ast.For(s.target, _Term(it), s.body, [])
            rest.rest = True
            gone = [ast.Delete([ast.Name(n.id, ast.Del())]) for n in ast.walk(s.target) if isinstance(n, ast.Name)]
            return self.block([_Turn(s.target, it[1], s.body)] + gone + [rest], st)
        v = fresh()
        base, el, icond = T.iter_source(it, ordered=True)
        elem = el(v)
        c0 = icond(v)
        names, attrs = self._carried(s, st)
        pre = {n: st.env[n] for n in names}
        preh = {a: st.heap.get(a) for a in attrs}
        ls = st.fork()
        for k in [k for k in ls.ver if k[0] == 'cell']:
            ls.ver[k] = None
        lv = {}
        for n in sorted(names):
            if _fresh_container(pre[n]):
                # containers keep their identity as markers
                lv[n] = mk('opaque', mk('c', 'lv', 'L%s %d' % (n, self.loops)))
            else:
                lv[n] = fresh()
            ls.env[n] = lv[n] if not _fresh_container(pre[n]) else mk('upd', lv[n])
        lh = {}
        for a in attrs:
            lh[a] = fresh()
            ls.heap[a] = lh[a]
        self._assign_elem(s.target, elem, ls)
        self.loops += 1
        out = _cont_to_end(self.under(b_and(T.mk_any(0, base, TRUE), c0), self.block, s.body, ls))
        self.loops -= 1
        if elem == v:
            # an element of the collection is in the collection
            out = T.within(v, base, out)
            for n in ls.env:
                ls.env[n] = T.within(v, base, ls.env[n])
            for a in ls.heap:
                ls.heap[a] = T.within(v, base, ls.heap[a])
            ls.eff = list(_map_eff(ls.eff, lambda t: T.within(v, base, t)))
        if c0 != TRUE:
            out = mk_ite(c0, out, END)
        # search loops
        lvs = T.leaves(out)
        if any(l != END for l, _ in lvs):
            return self._search_loop(s, st, ls, base, v, out, lvs, names, pre, lv)
        # values carried from one element to the next, as seen inside the loop
        steps = {}
        for n in names:
            t, k = ls.env.get(n, UNDEF), lv[n]
            if _fresh_container(pre[n]):
                # a container's contents so far, where the loop looks at them
                k = mk('upd', lv[n])
            steps[k] = (mk_ite(c0, t, k) if c0 != TRUE else t, pre[n])
        for a in attrs:
            t = ls.heap.get(a, lh[a])
            steps[lh[a]] = (mk_ite(c0, t, lh[a]) if c0 != TRUE else t,
                            preh[a] if preh[a] is not None else mk('a', a[0], a[1]))
        defs = _carried_defs(v, base, steps)
        for n in names:
            if lv[n][0] == 'opaque' and mk('upd', lv[n]) not in defs:
                defs[mk('upd', lv[n])] = mk('opaque', mk('c', 'lv', 'L' + n))
        # reductions
        allv = set(lv.values()) | set(lh.values())
        changed_h = {}
        for a in attrs:
            t = ls.heap.get(a, lh[a])
            if c0 != TRUE:
                t = mk_ite(c0, t, lh[a])
            init = preh[a] if preh[a] is not None else mk('a', a[0], a[1])
            t = T.subst(t, {k: d for k, d in defs.items() if k != lh[a]})
            r = self._reduce(base, v, lh[a], t, init, allv)
            changed_h[a] = r
        for n in sorted(names):
            t = ls.env.get(n, UNDEF)
            if _fresh_container(pre[n]):
                k = mk('upd', lv[n])
                t = T.subst(t, {x: d for x, d in defs.items() if x != k})
                st.env[n] = self._reduce_container(base, v, k, t, pre[n], c0)
            else:
                if c0 != TRUE:
                    t = mk_ite(c0, t, lv[n])
                t = T.subst(t, {k: d for k, d in defs.items() if k != lv[n]})
                st.env[n] = self._reduce(base, v, lv[n], t, pre[n], allv)
        for n in ls.env:
            if n not in st.env:
                st.env[n] = mk('opaque', mk('c', 'after', n))
        eff = [e for e in ls.eff if not (e[0] == 'set' and (e[1], e[2]) in lh)]
        if defs:
            eff = list(_map_eff(eff, lambda t: T.subst(t, defs)))
        if c0 != TRUE and eff:
            eff = [('if', c0, tuple(eff), ())]
        for a, r in changed_h.items():
            st.eff.append(mk('set', a[0], a[1], r))
            st.heap[a] = r
        if eff:
            bv, eff2 = _close_eff(v, eff)
            st.eff.append(('for', base, bv[1], eff2))
        for k, n in ls.ver.items():
            if k[0] == 'cell':
                st.ver[k] = None
                continue
            if k[0] == 'mods':
                if len(n) > len(st.ver.get(k, ())) and not T.mentions(k[1], v):
                    st.ver[k] = n
                continue
            if _most(n) > _most(st.ver.get(k, 0)):
                kk = k
                if T.mentions(k, v):
                    # an element of the iterated collection was mutated
                    continue
                self._renew(kk, st)
        for k in ls.heap:
            if k not in st.heap and not T.mentions(k[0], v):
                st.heap[k] = ls.heap[k]
        if s.orelse:
            return self.block(s.orelse, st)
        return END

    def _assign_elem(self, target, elem, st):
        if isinstance(target, ast.Name):
            st.env[target.id] = elem
        else:
            self.assign(target, elem, st)

    def _reduce(self, base, v, lvar, t, init, allv):
        if t == lvar:
            return init
        others = allv
        # additive accumulation
        if t[0] == 'ite' or T.numericish(t):
            d = sub(t, lvar)
            if t[0] == 'ite' and any(T.mentions(d, o) for o in others):
                d = T.lift(lambda x: sub(x, lvar), t, limit=600)
            if not any(T.mentions(d, o) for o in others):
                return add(init, T.sum_closed(T.strip_order(base), v, d))
        # set union accumulation
        if t[0] == 'union' and lvar in t[1]:
            restu = [x for x in t[1] if x != lvar]
            r = T.mk_union(restu)
            if not any(T.mentions(r, o) for o in others):
                bv, (b,) = T.close(v, r if r[0] != 'toset' else r[1])
                u = mk('unionover', bv[1], T.strip_order(base), b, TRUE)
                return u if init in (mk('set', ()), ) else T.mk_union([init, u])
        if t[0] == 'toset' and t[1] == lvar:
            return init
        # running max / min
        for sign in (1, -1):
            tt = t if sign == 1 else neg(t)
            lvs = lvar if sign == 1 else neg(lvar)
            if tt[0] == 'max' and lvs in tt[1]:
                r = mk_max([x for x in tt[1] if x != lvs])
                if not any(T.mentions(r, o) for o in others):
                    bv, (b,) = T.close(v, r)
                    m = mk('maxover', bv[1], T.strip_order(base), b, TRUE, NONE)
                    m = mk_max([m, init if sign == 1 else neg(init)])
                    return m if sign == 1 else neg(m)
        # multiplicative accumulation
        if not any(T.mentions(t, o) for o in others if o != lvar) and t[0] != 'ite':
            q = div(t, lvar)
            if not T.mentions(q, lvar) and q[0] != 'opaque':
                bv, (b,) = T.close(v, q)
                return mul(init, mk('prodover', bv[1], base, b))
        # last value / flag
        if not any(T.mentions(t, o) for o in others if o != lvar) and t[0] == 'ite':
            for lf, _ in T.leaves(t):
                if lf != lvar and T.mentions(lf, lvar):
                    break
            else:
                vals = {lf for lf, _ in T.leaves(t) if lf != lvar}
                if len(vals) == 1 and not T.mentions(next(iter(vals)), v):
                    val = next(iter(vals))
                    c = FALSE
                    for lf, path in T.leaves(t):
                        if lf == val:
                            c = b_or(c, b_and(*[a if s else b_not(a) for a, s in path]))
                    if not T.mentions(c, lvar):
                        bv, (c,) = T.close(v, c)
                        return mk_ite(mk('any', bv[1], base, c), val, init)
        bv, (b,) = T.close(v, t)
        used = [o for o in others if T.mentions(b, o)]
        m = {o: mk('prev', bv[1]) if o == lvar else mk('opaque', mk('c', 'carry', str(i))) for i, o in enumerate(
            sorted(used, key=lambda o: o != lvar))}
        return mk('fold', bv[1], base, T.subst(b, m), init)

    def _reduce_container(self, base, v, marker, t, init, c0):
        """Loop that fills a local container, as a comprehension."""
        if t == marker:
            return init
        cond = TRUE
        body = t
        if t[0] == 'ite':
            lv = T.leaves(t)
            non = [(l, p) for l, p in lv if l != marker]
            if len(set(l for l, _ in non)) == 1:
                body = non[0][0]
                cond = FALSE
                for l, p in non:
                    cond = b_or(cond, b_and(*[a if s else b_not(a) for a, s in p]))
            elif all(l[0] == 'store' and l[1] == marker for l, _ in non) and len(set(l[2] for l, _ in non)) == 1:
                k = non[0][0][2]
                cond = TRUE if len(non) == len(lv) else None
                if cond is None:
                    cond = FALSE
                    for l, p in non:
                        cond = b_or(cond, b_and(*[a if s else b_not(a) for a, s in p]))
                val = T.rebuild(t, lambda x: None)

                def pick(x):
                    if x[0] == 'ite':
                        return mk_ite(x[1], pick(x[2]), pick(x[3]))
                    return x[3] if x != marker else UNDEF
                val = pick(t)
                body = mk('store', marker, k, val)
        cond = b_and(c0, cond)
        if body[0] == 'store' and body[1] == marker and not T.mentions(body[2], marker) and not T.mentions(body[3], marker) and not T.mentions(cond, marker):
            bv, (k, b, c) = T.close(v, body[2], body[3], cond)
            d = T.mk_dictc(bv, base, k, b, c)
            return d if init == mk('dict', ()) else mk('op', 'dictmerge', init, d)
        if body[0] == 'upd' and len(body) == 4 and body[3] == marker:
            op, arg = body[1], body[2]
            if not T.mentions(arg, marker) and not T.mentions(cond, marker):
                bv, (b, c) = T.close(v, arg, cond)
                if op == 'append':
                    r = mk('tolist', base) if b == bv and c == TRUE else mk('listc', bv[1], base, b, c)
                    return r if init == mk('list', ()) else mk('cat', init, r)
                if op == 'add':
                    r = mk('toset', T.strip_order(base)) if b == bv and c == TRUE else mk('setc', bv[1], T.strip_order(base), b, c)
                    return r if init == mk('set', ()) else T.mk_union([init, r])
                if op == 'union':
                    if arg[0] == 'toset':
                        bv, (b, c) = T.close(v, arg[1], cond)
                    r = mk('unionover', bv[1], T.strip_order(base), b, c)
                    return r if init == mk('set', ()) else T.mk_union([init, r])
        if body[0] == 'store' and body[1] == marker and body[2] == v and not T.mentions(cond, marker) and init[0] == 'dictc' and \
                init[3] == mk('bv', init[1]) and T.strip_order(init[2]) == T.strip_order(base) and init[5] == TRUE:
            # each entry of a table is changed in place
            old = T.subst(init[4], {mk('bv', init[1]): v})
            new = T.subst(body[3], {mk_index(marker, v): old})
            if not T.mentions(new, marker):
                bv, (b,) = T.close(v, mk_ite(cond, new, old))
                return mk('dictc', bv[1], init[2], bv, b, TRUE)
        bv, (b,) = T.close(v, mk_ite(c0, t, marker))
        return mk('fold', bv[1], base, T.subst(b, {marker: mk('prev', bv[1])}), init)

    def _search_loop(self, s, st, ls, base, v, out, lvs, names, pre, lv):
        eff = ls.eff
        ren = {mk('upd', x): mk('opaque', mk('c', 'lv', 'L' + n)) for n, x in lv.items() if x[0] == 'opaque'}
        if ren:
            plain = {n for n in names if lv[n][0] == 'opaque' and ls.env.get(n) == mk('upd', lv[n])}
            sb = lambda t: T.subst(t, ren)
            eff, out = list(_map_eff(eff, sb)), sb(out)
            lvs = T.leaves(out)
            for n in ls.env:
                if n not in plain:
                    ls.env[n] = sb(ls.env[n])
            lv = {n: ren.get(mk('upd', x), x) if n not in plain else x for n, x in lv.items()}
        for a, t in ls.heap.items():
            if st.heap.get(a) != t and T.mentions(t, v):
                bv, (t,) = T.close(v, t)
                st.heap[a] = mk('opaque', mk('fold', bv[1], base, t, NONE))
        rets = [(l, p) for l, p in lvs if l not in (END, BRK)]
        simple = not any(T.mentions(out, x) for x in lv.values()) and all(
            ls.env.get(n) == (mk('upd', lv[n]) if _fresh_container(pre[n]) else lv[n]) for n in names)
        if not simple and not any(T.mentions(out, x) for x in lv.values()):
            # names only used within one turn
            temps = {n for n in names if not _fresh_container(pre[n]) and ls.env.get(n) is not None and lv[n][0] != 'opaque' and
                     not any(T.mentions(ls.env[n], x) for x in lv.values())}
            seen = []
            list(_map_eff(eff, lambda t: seen.append(t) or t))
            temps = {n for n in temps if not any(T.mentions(t, lv[n]) for t in seen)}
            if all(n in temps or ls.env.get(n) == (mk('upd', lv[n]) if _fresh_container(pre[n]) else lv[n]) for n in names):
                simple = True
                for n in temps:
                    bv, (b,) = T.close(v, ls.env[n])
                    st.env[n] = mk('opaque', mk('fold', bv[1], base, b, pre[n]))
        exits = FALSE
        for l, p in lvs:
            if l == BRK or l != END and l[0] != 'raise':
                exits = b_or(exits, b_and(*[a if x else b_not(a) for a, x in p]))
        if eff:
            src = base
            if simple and exits != FALSE:
                # what is done for the elements up to the one that ends the loop
                bv, (c,) = T.close(v, exits)
                src = mk('upto', bv[1], base, c)
            bv, eff2 = _close_eff(v, eff)
            st.eff.append(('for', src, bv[1], eff2))
        if not simple:
            # loop-carried state in a search loop: keep an opaque summary
            bv, (o,) = T.close(v, out)
            for n in names:
                bv2, (b,) = T.close(v, ls.env.get(n, UNDEF))
                st.env[n] = mk('opaque', mk('fold', bv2[1], base, b, pre[n]))
            found = mk('opaque', mk('fold', bv[1], base, o, NONE))
            if rets:
                tail = self.block(s.orelse, st)
                return mk_ite(mk('truthy', found), mk('opaque', found), tail)
            return END
        if rets and not any(l == BRK for l, _ in lvs):
            vals = {l for l, _ in rets}
            cond = FALSE
            for l, p in rets:
                cond = b_or(cond, b_and(*[a if x else b_not(a) for a, x in p]))
            bv, (c,) = T.close(v, cond)
            anyc = mk('any', bv[1], T.strip_order(base), c)
            val = next(iter(vals))
            if len(vals) == 1 and not T.mentions(val, v):
                hit = val
            else:
                bv, (o,) = T.close(v, out)
                hit = mk('first', bv[1], base, o)
            st2 = st.fork()
            tail = self.block(s.orelse, st2)
            s1 = st.fork()
            self._merge(anyc, st, s1, st2)
            return mk_ite(anyc, hit, tail)
        bv, (o,) = T.close(v, out)
        if rets or s.orelse:
            st.eff.append(mk('opaque', mk('first', bv[1], base, o)))
        for n in ls.env:
            if n not in st.env or st.env[n] != ls.env[n]:
                bv2, (b,) = T.close(v, ls.env[n])
                st.env[n] = mk('first', bv2[1], base, b)
        if rets:
            return mk_ite(mk('truthy', mk('opaque', o)), mk('opaque', o), END)
        return END

    def _while(self, s, st):
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) > 1 and isinstance(s.body[0], ast.If) and \
                not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break):
            s = ast.copy_location(ast.While(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.body[0].test), s), body=s.body[1:], orelse=[]), s)
        elif isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and \
                len(s.body[0].orelse) == 1 and isinstance(s.body[0].orelse[0], ast.Break):
            s = ast.copy_location(ast.While(test=s.body[0].test, body=s.body[0].body, orelse=[]), s)
        names, attrs = self._carried(s, st)
        c0 = self.cond(s.test, st.fork())
        ls = st.fork()
        for k in [k for k in ls.ver if k[0] == 'cell']:
            ls.ver[k] = None
        marks = {}
        for n in sorted(names):
            marks[n] = fresh()
            ls.env[n] = marks[n] if not _fresh_container(st.env[n]) else mk('upd', marks[n])
        for a in attrs:
            marks[a] = fresh()
            ls.heap[a] = marks[a]
        c = self.cond(s.test, ls)
        out = _cont_to_end(self.under(c, self.block, s.body, ls))
        m = {marks[n]: mk('opaque', mk('c', 'carry', str(i))) for i, n in enumerate(sorted(marks, key=str))}
        sb = lambda t: T.subst(t, m)
        eff = _map_eff(ls.eff, sb)
        on = sb(c)
        if any(l == BRK for l, _ in T.leaves(out)):     # may also end within a turn
            on = b_and(on, mk('truthy', mk('opaque', sb(out))))
        st.eff.append(('while', on, tuple(eff)))
        for n in names:
            if ls.env.get(n) != marks[n]:
                st.env[n] = mk('wfold', sb(c), sb(ls.env.get(n, UNDEF)), st.env[n])
        for a in attrs:
            st.heap[a] = mk('wfold', sb(c), sb(ls.heap.get(a, UNDEF)), st.heap.get(a, mk('a', a[0], a[1])))
        for k, n in ls.ver.items():
            if k[0] == 'cell':
                st.ver[k] = None
                continue
            if k[0] == 'mods':
                if len(n) > len(st.ver.get(k, ())):
                    st.ver[k] = n
                continue
            if _most(n) > _most(st.ver.get(k, 0)):
                self._renew(k, st)
                if k == SELF:
                    st.heap = {kk: vv for kk, vv in st.heap.items() if kk[0] != SELF}
        if any(l not in (END, BRK) for l, _ in T.leaves(out)):
            tail = self.block(s.orelse, st)
            return mk_ite(mk('truthy', mk('opaque', sb(out))), mk('opaque', sb(out)), tail)
        return END

    def _guarded(self, s, st):
        """`try: <one look-up> except ...` asks whether the look-up can succeed: the test, or None."""
        if len(s.handlers) != 1 or s.finalbody or len(s.body) != 1 or s.handlers[0].name or not isinstance(s.handlers[0].type, ast.Name):
            return None
        b, h = s.body[0], s.handlers[0].type.id
        e, rest = self._lookup(b)
        if e is None or any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) for x in rest for n in ast.walk(x)):
            return None
        if h == 'AttributeError' and isinstance(e, ast.Attribute):
            tests = []
            while isinstance(e, ast.Attribute):
                tests.insert(0, ast.Call(ast.Name('hasattr', ast.Load()), [e.value, ast.Constant(e.attr)], []))
                e = e.value
            if isinstance(e, ast.Name):
                return tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)
            return None
        if h == 'KeyError' and isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice) and not any(
                isinstance(n, (ast.Call, ast.Subscript)) for n in list(ast.walk(e.slice)) + list(ast.walk(e.value))):
            base = e.value if isinstance(e.ctx, ast.Load) else ast.parse(ast.unparse(e.value), mode='eval').body
            o = self.ev(base, st.fork())
            if not T.contains(o, lambda x: x[0] == 'g' and 'defaultdict' in x[1]):
                return ast.Compare(e.slice, [ast.In()], [base])
        return None

    @staticmethod
    def _lookup(b):
        """The one look-up a statement makes, and what else it computes."""
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Subscript):
            return b.target, [b.value]
        if isinstance(b, ast.Delete) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript):
            return b.targets[0], []
        if not isinstance(b, (ast.Assign, ast.Return, ast.Expr)) or b.value is None:
            return None, ()
        rest = []
        if isinstance(b, ast.Assign):
            for t in b.targets:
                if isinstance(t, ast.Attribute):
                    t = t.value
                if not isinstance(t, ast.Name):
                    return None, ()
        e = b.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('append', 'add', 'extend', 'update') and not e.keywords:
            return e.func.value, e.args
        return e, rest

    def _try(self, s, st):
        test = self._guarded(s, st)
        if test is not None:
            one = ast.If(test, list(s.body) + list(s.orelse), list(s.handlers[0].body))
            return self.block([ast.fix_missing_locations(ast.copy_location(one, s))], st)
        self.excn += 1
        n = self.excn
        s1 = st.fork()
        caught = any(h.type is None or any(isinstance(x, ast.Name) and x.id in ('TypeError', 'AttributeError', 'Exception', 'BaseException')
                                           for x in ast.walk(h.type)) for h in s.handlers)
        self.excused += caught
        o1 = self.block(list(s.body) + list(s.orelse), s1)
        self.excused -= caught
        o2, s2 = END, st.fork()
        for i, h in reversed(list(enumerate(s.handlers))):
            sx = st.fork()
            if h.name:
                sx.env[h.name] = mk('opaque', mk('c', 'exc', str(n)))
            o = self.under(mk('exc', n, 0), self.block, h.body, sx)
            if i == len(s.handlers) - 1:
                o2, s2 = o, sx
                continue
            c = mk('exc', n, i + 1)
            stm = st.fork()
            self._merge(c, stm, sx, s2)
            o2, s2 = mk_ite(c, o, o2), stm
        c = mk('exc', n, 0)
        self._merge(c, st, s2, s1)
        out = mk_ite(c, o2, o1)
        if s.finalbody:
            s3 = st.fork()
            o3 = self.block(s.finalbody, s3)
            st.env, st.heap, st.ver = s3.env, s3.heap, s3.ver
            st.eff.extend(s3.eff)
            if o3 != END:
                return o3
        return out

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        if isinstance(e, _Term):
            return e.term
        if isinstance(e, ast.BoolOp):
            cs = self._in_turn(e, st, self.cond)
            return b_and(*cs) if isinstance(e.op, ast.And) else b_or(*cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return b_not(self.cond(e.operand, st))
        if isinstance(e, ast.Compare):
            return self.compare(e, st)
        return truthy(self.ev(e, st))

    def _in_turn(self, e, st, f):
        """Operands of and/or: each is looked at only if those before allow it."""
        out, n = [], len(self.ctx)
        for x in e.values:
            v = f(x, st)
            out.append(v)
            c = truthy(v)
            self.ctx.append(c if isinstance(e.op, ast.And) else b_not(c))
        del self.ctx[n:]
        return out

    def compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.cmp1(op, left, right))
            left = right
        return b_and(*out)

    def cmp1(self, op, a, b):
        if a[0] == b[0] == 'tuple' and len(a[1]) == len(b[1]) and isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            # element by element
            x, y = (a, b) if isinstance(op, (ast.Lt, ast.LtE)) else (b, a)
            r = TRUE if isinstance(op, (ast.LtE, ast.GtE)) else FALSE
            for u, w in reversed(list(zip(x[1], y[1]))):
                r = b_or(lt(u, w), b_and(eq(u, w), r))
            return r
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            self.need(a)
            self.need(b)
        elif isinstance(op, (ast.In, ast.NotIn)):
            self.need(b)
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.GtE):
            return le(b, a)
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return b_not(eq(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a == NONE or b == NONE:
                r = isnone(b if a == NONE else a)
            elif a == b:
                r = TRUE
            elif b in (TRUE, FALSE) or a in (TRUE, FALSE) or mk('p', 'self') in (a, b):
                r = eq(a, b)        # an account is equal to itself alone
            else:
                r = _exactly(a, b)
                if r is None:
                    p = sorted((a, b), key=key)
                    r = mk('is', p[0], p[1])
            return b_not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = T.mk_in(a, b)
            return b_not(r) if isinstance(op, ast.NotIn) else r
        return mk('opaque', mk('c', 'cmp', type(op).__name__), a, b)

    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return mk('opaque', mk('c', 'ast', type(e).__name__))
        return m(e, st)

    def ev__Term(self, e, st):
        return e.term

    def ev_Constant(self, e, st):
        return const(e.value)

    def ev_Name(self, e, st):
        if e.id in st.env:
            t = st.env[e.id]
            return self.vref(t, st) if st.ver else t
        r = self.p.resolve_name(self.func.module, e.id)
        if r is None:
            return mk('b', e.id)
        return self.global_term(r, e.id)

    def global_term(self, r, name):
        if r[0] == 'class':
            return mk('g', r[1].module.name + ':' + r[1].name)
        if r[0] == 'func':
            return mk('g', r[1].qual)
        if r[0] == 'const':
            mod, nm, expr = r[1], r[2], r[3]
            if isinstance(expr, ast.Constant):
                return const(expr.value)
            if isinstance(expr, ast.UnaryOp) and isinstance(expr.operand, ast.Constant):
                return neg(const(expr.operand.value))
            if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == 'float' \
                    and expr.args and isinstance(expr.args[0], ast.Constant):
                return const(float(expr.args[0].value))
            if isinstance(expr, ast.Name):
                rr = self.p.resolve_name(mod, expr.id)
                if rr:
                    return self.global_term(rr, expr.id)
            if isinstance(expr, ast.Lambda):
                saved = self.func
                self.func = _FakeFunc(mod)
                try:
                    return self.closure(expr.args, expr.body, State(), name=None)
                finally:
                    self.func = saved
            return mk('g', mod.name + ':' + nm)
        if r[0] == 'mod':
            return mk('g', 'mod:' + r[1])
        if r[0] == 'ext':
            if r[1] == 'math.e':
                return mk('g', 'ext:math.e')
            return mk('g', 'ext:' + r[1])
        return mk('b', name)

    def cls_of(self, t):
        t = _base(t)
        if t == SELF:
            return self.cls
        return None

    def ev_Attribute(self, e, st):
        # module member / super()
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super' \
                and 'super' not in st.env:
            return self.super_attr(e.attr, st)
        r = self.p.resolve_expr(self.func.module, e) if not self._is_local(e, st) else None
        if r is not None:
            return self.global_term(r, e.attr)
        o = self.ev(e.value, st)
        self.need(o)
        return self.get_attr(o, e.attr, st)

    def _is_local(self, e, st):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id in st.env

    def get_attr(self, o, attr, st):
        if o[0] == 'ite' and T.nleaves(o) <= T.LEAF_LIMIT:
            return T.lift(lambda x: self.get_attr(x, attr, st), o)
        if attr == '__class__':
            return mk('call', mk('b', 'type'), (o,), ())
        if o[0] == 'call' and o[1][0] == 'g' and o[3] and not o[2]:
            fs = self._fields(o[1][1])
            if fs and attr in fs and attr in dict(o[3]):
                return dict(o[3])[attr]
        if attr == 'year':
            # the year of the latest date is the latest of their years
            m = o if o[0] == 'maxover' else neg(o)
            if m[0] == 'maxover':
                el = mk('a', m[3] if m is o else neg(m[3]), attr)
                r = mk('maxover', m[1], m[2], el if m is o else neg(el), m[4], m[5])
                return r if m is o else neg(r)
        b = _base(o)
        if attr == 'group' and self.cls is not None and self.cls.name == 'AccountLink':
            # a link's group is its record's (the law of AccountLink.group)
            if b == mk('a', SELF, '_record') or b[0] == 'i' and b[1] == mk('a', mk('a', SELF, 'owner'), 'data') and b[2] == mk('a', SELF, 'token'):
                return mk('a', SELF, 'group')
        if o == b or o[0] != 'v' or True:
            hv = st.heap.get((b, attr))
            if hv is not None:
                cls = self.cls_of(b)
                g = cls.lookup(attr) if cls else None
                if g is None or g.kind not in ('property',):
                    return self.vref(hv, st)
                # a computed property after an assignment: unknown new value
                return mk('a', mk('v', b, 1), attr)
        cls = self.cls_of(o)
        g = cls.lookup(attr) if cls is not None else None
        attr = TRANSPARENT.get((g.cls.name, attr) if g is not None and g.cls is not None else attr, TRANSPARENT.get(attr, attr))
        if cls is not None:
            g = cls.lookup(attr)
            # a record may have been given: reading the figure is not working it out
            kept = g is not None and g.kind in ('recorded', 'cached') and self.baseline is not None and g.qual in self.baseline
            if g is not None and g.qual in self.swap:
                g = self.swap[g.qual]
            if g is not None and g.kind in ('property', 'recorded', 'cached') and not kept and self.should_inline(g, prop=True):
                return self.inline(g, cls, o, [], {}, st)
            if g is None and cls.lookup_attr(attr) is not None and isinstance(cls.lookup_attr(attr), ast.Constant) and not attr.startswith('_'):
                pass
        t = mk('a', o, attr)
        return self.vref(t, st)

    def super_attr(self, attr, st):
        owner = self.func.cls
        g = self.cls.lookup(attr, after=owner) if owner is not None else None
        if g is not None and g.kind in ('property', 'recorded', 'cached'):
            if self.should_inline_super(g):
                return self.inline(g, self.cls, SELF, [], {}, st)
            return mk('supera', attr, mk('c', 'str', g.cls.name))
        return mk('super', attr, mk('c', 'str', g.cls.name if g else (owner.name if owner else '?')))

    def ev_Subscript(self, e, st):
        o = self.ev(e.value, st)
        self.need(o)
        if isinstance(e.slice, ast.Slice):
            parts = [self.ev(x, st) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return mk('slice', o, tuple(parts))
        k = self.ev(e.slice, st)
        t = mk_index(o, k)
        if st.ver and T.contains(o, lambda x: x[0] == 'v'):
            t = T.lift(lambda x: self._entry(x, k, st), o)
        if o[0] == 'call' and o[1][0] == 'a' and not o[2] and T.isnone(k) == FALSE:
            # the table, or the one entry asked for: an operation that gives either
            cls = self.cls_of(o[1][1])
            m = cls.lookup(o[1][2]) if cls is not None else None
            n = ENTRY.get(m.qual) if m is not None else None
            if n is not None and n not in dict(o[3]):
                return mk('call', o[1], (), tuple(sorted(o[3] + ((n, k),))))
        return self.vref(t, st)

    @staticmethod
    def _entry(x, k, st):
        """What was just put there, if that is what is read back."""
        c = st.ver.get(('cell', x[1], x[2])) if x[0] == 'v' else None
        return c[1] if c is not None and c[0] == k else mk_index(x, k)

    def ev_Tuple(self, e, st):
        elts = self._elts(e.elts, st)
        n = 1
        for x in elts:
            n *= T.nleaves(x)
        if 1 < n <= 12:
            return T.lift(lambda *xs: mk('tuple', tuple(xs)), *elts)
        return mk('tuple', tuple(elts))

    def ev_List(self, e, st):
        return mk('list', tuple(self._elts(e.elts, st)))

    def ev_Set(self, e, st):
        return mk('set', tuple(sorted(set(self._elts(e.elts, st)), key=key)))

    def _elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if v[0] in ('tuple', 'list'):
                    out.extend(v[1])
                else:
                    out.append(mk('star', v))
            else:
                out.append(self.ev(x, st))
        return out

    def ev_Dict(self, e, st):
        if len(e.keys) == 1 and e.keys[0] is None:
            return self._copy(self.ev(e.values[0], st))
        items = []
        r = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                base = self.ev(v, st)
                r = base if r is None and not items else mk('op', 'dictmerge', r or mk('dict', tuple(items)), base)
                items = []
            else:
                items.append((self.ev(k, st), self.ev(v, st)))
        if r is not None:
            return mk('op', 'dictmerge', r, mk('dict', tuple(items))) if items else r
        return mk('dict', tuple(items))

    def ev_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        self.need(a)
        self.need(b)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            if a[0] in ('tuple', 'list') and b[0] == 'n':
                return mk('opaque', mk('tuple', (a, b)))
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            return T.power(a, b)
        if isinstance(op, ast.BitOr):
            return T.mk_union([a, b])
        if isinstance(op, ast.BitAnd):
            p = sorted((a, b), key=key)
            return mk('inter', p[0], p[1])
        return T.lift(lambda x, y: mk('op', type(op).__name__, x, y), a, b)

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return self.cond(e, st)
        v = self.ev(e.operand, st)
        self.need(v)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('op', type(e.op).__name__, v)

    def ev_BoolOp(self, e, st):
        if all(_boolish(x) for x in e.values):
            return self.cond(e, st)
        vals = self._in_turn(e, st, self.ev)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            if isinstance(e.op, ast.Or):
                r = mk_ite(truthy(v), v, r)
            else:
                r = mk_ite(truthy(v), r, v)
        return r

    def ev_Compare(self, e, st):
        return self.compare(e, st)

    def ev_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c == TRUE:
            return self.ev(e.body, st)
        if c == FALSE:
            return self.ev(e.orelse, st)
        s1, s2 = st.fork(), st.fork()
        a, b = self.under(c, self.ev, e.body, s1), self.under(b_not(c), self.ev, e.orelse, s2)
        self._merge(c, st, s1, s2)
        return mk_ite(c, a, b)

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def ev_JoinedStr(self, e, st):
        return mk('fstr', tuple(self.ev(v.value, st) if isinstance(v, ast.FormattedValue) else const(v.value) for v in e.values))

    def ev_Starred(self, e, st):
        return mk('star', self.ev(e.value, st))

    def ev_Lambda(self, e, st):
        return self.closure(e.args, e.body, st)

    def ev_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        st.eff.append(('yield', v))
        return mk('yieldv', v)

    def closure(self, args, body, st, name=None):
        pos = [a.arg for a in args.posonlyargs + args.args]
        kwo = [a.arg for a in args.kwonlyargs]
        names = pos + kwo
        ls = st.fork()
        fv = {n: fresh() for n in names}
        ls.env.update(fv)
        extra = []
        if args.vararg:
            extra.append(args.vararg.arg)
            ls.env[args.vararg.arg] = fresh()
        if args.kwarg:
            extra.append(args.kwarg.arg)
            ls.env[args.kwarg.arg] = fresh()
        defaults = {}
        for n, d in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            defaults[n] = self.ev(d, st)
        for n, d in zip(kwo, args.kw_defaults):
            if d is not None:
                defaults[n] = self.ev(d, st)
        if isinstance(body, list):
            if name:
                ls.env[name] = mk('opaque', mk('c', 'rec', 'rec'))
            self.excused += 1
            out = self.block(body, ls, ())
            self.excused -= 1
            out = T.subst(out, {END: NONE})
        else:
            self.excused += 1
            out = self.ev(body, ls)
            self.excused -= 1
        eff = tuple(ls.eff)
        # alpha-rename parameters by position and height
        from .compare import state_events
        changed = {k: v for k, v in ls.heap.items() if st.heap.get(k) != v} if isinstance(body, list) else {}
        evs = state_events(eff, changed, fv.values()) if eff or changed else ()
        evs = mk('lamev', *[x for pair in evs for x in pair]) if evs else NONE
        h = 1 + max([x[1] for x in list(T.walk(out)) + list(T.walk(evs)) if x[0] == 'lp'] + [0])
        m = {fv[n]: mk('lp', h, i) for i, n in enumerate(names)}
        for j, n in enumerate(extra):
            m[ls.env.get(n, n)] = mk('lp', h, 100 + j) if isinstance(ls.env.get(n), tuple) and ls.env[n][0] == 'fv' else NONE
        out = T.subst(out, m)
        evs = T.subst(evs, m)
        if isinstance(body, list):
            # a value that a field holds is named after the field
            held = {v: mk('a', o, attr) for (o, attr), v in st.heap.items()
                    if v[0] == 'ite' and not T.contains(o, lambda x: x[0] == 'fv')}
            if held:
                out, evs = T.subst(out, held), T.subst(evs, held)
        # names kept for keyword binding (not part of identity ordering)
        return mk('lam', h, len(names), out, mk('c', 'names', ','.join(names)),
                tuple(sorted((n, v) for n, v in defaults.items())), mk('c', 'npos', str(len(pos))), evs)

    def apply_lam(self, lam, args, kwargs):
        h, n = lam[1], lam[2]
        names = lam[4][2].split(',') if lam[4][2] else []
        bound = dict(zip(names, args))
        for k, v in kwargs.items():
            if k in names:
                bound[k] = v
        for k, v in lam[5]:
            bound.setdefault(k, v)
        m = {}
        for i, nm in enumerate(names):
            m[mk('lp', h, i)] = bound.get(nm, UNDEF)
        return T.subst(lam[3], m)

    # comprehension
    def _comp(self, kind, e, st):
        gens = e.generators
        return self._gen(kind, e, gens, st)

    def _gen(self, kind, e, gens, st):
        g = gens[0]
        it = self.ev(g.iter, st)
        self.need(it)
        elts = _literal(it) if len(gens) == 1 and not g.ifs else None
        if elts:
            def each(x):
                ls = st.fork()
                ls.eff = st.eff
                self.assign(g.target, x, ls)
                return ls
            if kind == 'dictc':
                ks = [(self.ev(e.key, ls), self.ev(e.value, ls)) for ls in map(each, elts)]
                if all(k[0] == 'c' for k, _ in ks) and len({k for k, _ in ks}) == len(ks):
                    return mk('dict', tuple(ks))
            elif kind == 'listc':
                return mk('list', tuple(self.ev(e.elt, each(x)) for x in elts))
            elif kind in ('maxover', 'minover') and False:
                pass
        n = len(self.ctx)
        self.ctx.append(T.mk_any(0, T.iter_source(it)[0], TRUE))

        def bind(elem):
            ls = st.fork()
            self.assign(g.target, elem, ls)
            made.append((elem, ls))
            return ls
        made = []
        try:
            return self._gen2(kind, e, gens, st, g, it, bind)
        finally:
            del self.ctx[n:]
            self._comp_effects(it, made, st)

    def _comp_effects(self, it, made, st):
        """Calls made for every element are events just as in the loop form."""
        for elem, ls in made:
            if not ls.eff:
                continue
            vs = [x for x in T.walk(elem) if x[0] == 'fv']
            if not vs:
                st.eff.extend(ls.eff)
                continue
            base, el, c2 = T.iter_source(it)
            v = max(vs, key=lambda x: x[1])
            eff = tuple(ls.eff)
            c = c2(v)
            if c != TRUE:
                eff = (('if', c, eff, ()),)
            bv, eff = _close_eff(v, eff)
            st.eff.append(('for', base, bv[1], eff))

    def _gen2(self, kind, e, gens, st, g, it, bind):

        def cond(elem):
            ls = bind(elem)
            cs = []
            for c in g.ifs:
                cs.append(self.cond(c, ls))
                self.ctx.append(cs[-1])
            return b_and(*cs)
        if len(gens) > 1:
            inner = lambda elem: self._gen(kind, e, gens[1:], bind(elem))
            if kind == 'sum':
                return T.mk_sum(it, inner, cond)
            if kind == 'any':
                return T.comp('any', it, inner, cond)
            if kind == 'setc':
                return T.union_over(it, inner, cond)
            if kind == 'listc':
                return T.comp('listc', it, lambda el: mk('flat', inner(el)), cond)
            return mk('opaque', mk('c', 'comp', kind), it)
        if kind == 'dictc':
            return T.comp('dictc', it, lambda el: self.ev(e.value, bind(el)), cond,
                          key_fn=lambda el: self.ev(e.key, bind(el)))
        if kind == 'sum':
            return T.mk_sum(it, lambda el: self.ev(e.elt, bind(el)), cond)
        if kind == 'any':
            return T.comp('any', it, lambda el: self.cond(e.elt, bind(el)), cond)
        if kind == 'all':
            return b_not(T.comp('any', it, lambda el: b_not(self.cond(e.elt, bind(el))), cond))
        if kind in ('maxover', 'minover'):
            base, el, c2 = T.iter_source(it, dups=True)
            v = fresh()
            x = el(v)
            b = self.ev(e.elt, bind(x))
            if kind == 'minover':
                b = neg(b)
            c = b_and(c2(v), cond(x))
            bv, (b, c) = T.close(v, b, c)
            return mk('maxover', bv[1], base, b, c, NONE)
        if kind == 'unionover':
            return T.union_over(it, lambda el: self.ev(e.elt, bind(el)), cond)
        return T.comp(kind, it, lambda el: self.ev(e.elt, bind(el)), cond)

    def ev_GeneratorExp(self, e, st):
        return self._comp('listc', e, st)

    def ev_ListComp(self, e, st):
        return self._comp('listc', e, st)

    def ev_SetComp(self, e, st):
        return self._comp('setc', e, st)

    def ev_DictComp(self, e, st):
        return self._comp('dictc', e, st)

    # ------------------------------------------------------------ calls
    def _copy(self, t):
        if t[0] == 'ite' and T.nleaves(t) <= 12:
            return T.lift(self._copy, t)
        if t[0] in ('dictc', 'listc', 'setc', 'copy', 'dict', 'list', 'store'):
            return t
        return mk('copy', t)

    def ev_Call(self, e, st):
        f = e.func
        # reductions over generator arguments, evaluated structurally
        if isinstance(f, ast.Name) and f.id not in st.env and self.p.resolve_name(self.func.module, f.id) is None:
            if f.id in NEEDY and self.optional and not self.excused:
                for x in e.args:
                    if isinstance(x, ast.Name) or isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                        self.need(self.ev(x, st.fork()))
            r = self.builtin(f.id, e, st)
            if r is not None:
                return r
        if isinstance(f, ast.Attribute) and f.attr == 'union' and isinstance(f.value, ast.Name) and f.value.id in ('set', 'frozenset'):
            if len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and isinstance(
                    e.args[0].value, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
                return self._comp('unionover', e.args[0].value, st)
            args = self._elts(e.args, st)
            if len(args) == 1 and args[0][0] == 'star':
                v = fresh()
                base, el, c = T.iter_source(args[0][1])
                bv, (b, c) = T.close(v, el(v), c(v))
                return mk('unionover', bv[1], base, b, c)
            return T.mk_union(args)
        if isinstance(f, ast.Attribute) and f.attr == 'from_iterable':
            a = self.ev(e.args[0], st)
            return mk('flat', a)
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'super':
            pass
        # super().method(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super' and 'super' not in st.env:
            return self.call_super(f.attr, e, st)
        # explicit Base.method(self, ...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in st.env:
            r = self.p.resolve_name(self.func.module, f.value.id)
            if r and r[0] == 'class':
                m = r[1].lookup(f.attr)
                if m is not None and m.kind in ('static', 'class'):
                    args, kwargs = self._args(e, st)
                    return self.call_func(m, r[1], None, args, kwargs, st, mk('g', m.qual))
                if m is not None and m.kind == 'method' and e.args:
                    args, kwargs = self._args(e, st)
                    if args and args[0] == SELF and self.cls is not None and m.cls in self.cls.mro and m.cls is not self.func.cls:
                        if self.should_inline_super(m):
                            return self.inline(m, self.cls, SELF, args[1:], kwargs, st)
                        return self.emit_call(mk('super', f.attr, mk('c', 'str', m.cls.name)), m, args[1:], kwargs, st, SELF)
        if isinstance(f, ast.Attribute) and f.attr == '__init__' and False:
            pass
        if isinstance(f, ast.Attribute):
            r = self.p.resolve_expr(self.func.module, f) if not self._is_local(f, st) else None
            if r is None:
                o = self.ev(f.value, st)
                self.need(o)
                if o[0] == 'ite' and T.nleaves(o) <= 4 and f.attr not in MUTATORS:
                    pass
                return self.call_method(o, f.attr, e, st, f.value)
            ft = self.global_term(r, f.attr)
        else:
            r = None
            ft = self.ev(f, st)
            self.need(ft)
            if isinstance(f, ast.Name) and f.id not in st.env:
                r = self.p.resolve_name(self.func.module, f.id)
        args, kwargs = self._args(e, st)
        if ft[0] == 'lam' and isinstance(f, ast.Name) and f.id in self.localdefs:
            r2 = self.inline_local(self.localdefs[f.id], ft, args, kwargs, st)
            if r2 is not None:
                return r2
        return self.call_term(ft, r, args, kwargs, st)

    def call_term(self, ft, r, args, kwargs, st):
        if ft[0] in ('b', 'g') and ft[1] in EXT_PARAMS and not any(a[0] == 'star' for a in args) and '**' not in kwargs \
                and len(args) <= len(EXT_PARAMS[ft[1]]):
            names = EXT_PARAMS[ft[1]]
            kwargs = dict(zip(names, args), **kwargs)
            args = [kwargs.pop(names[0])] if names and names[0] in kwargs else []
            if ft[1] == 'open' and kwargs.get('mode', (None,))[0] == 'c':
                m = str(kwargs['mode'][2]).replace('t', '')
                kwargs['mode'] = mk('c', 'str', m)
                if m == 'r':
                    del kwargs['mode']
        if ft[0] == 'lam':
            if ft[7] == NONE:
                return self.apply_lam(ft, args, kwargs)
        if ft[0] == 'a' and _base(ft[1]) == SELF:
            # an operation of the object itself, under another name
            m = self.cls.lookup(ft[2]) if self.cls is not None else None
            if m is not None and m.kind in ('method', 'static', 'class'):
                return self.call_func(m, self.cls, SELF, args, kwargs, st, mk('a', SELF, ft[2]))
        if ft[0] == 'ite':
            outs = []
            if T.nleaves(ft) <= 6 and all(l[0] in ('lam', 'g', 'p', 'a', 'super') for l, _ in T.leaves(ft)):
                def ap(x):
                    if x[0] == 'ite':
                        s1, s2 = st.fork(), st.fork()
                        a = ap_in(x[2], s1)
                        b = ap_in(x[3], s2)
                        self._merge(x[1], st, s1, s2)
                        return mk_ite(x[1], a, b)
                    return self.call_term(x, None, args, kwargs, st)

                def ap_in(x, s):
                    nonlocal st
                    old = st
                    st = s
                    try:
                        return ap(x)
                    finally:
                        st = old
                return ap(ft)
        if ft[0] == 'g':
            q = ft[1]
            if q.startswith('ext:'):
                nm = q[4:]
                if nm in ('copy.copy',) and len(args) == 1:
                    return self._copy(args[0])
                if nm == 'copy.deepcopy':
                    memo = kwargs.get('memo', args[1] if len(args) > 1 else NONE)
                    return mk('deepcopy', args[0], memo)
                if nm == 'functools.reduce' and len(args) >= 2:
                    return mk('opaque', mk('c', 'reduce', 'reduce'), *args)
                if nm in ('functools.partial',):
                    return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
                return self.emit_call(ft, None, args, kwargs, st, None)
            if r is None:
                r = self._res_qual(q)
            if r and r[0] == 'func':
                return self.call_func(r[1], None, None, args, kwargs, st, ft)
            if r and r[0] == 'class':
                init = r[1].lookup('__init__')
                a2, k2 = self.bind_names(init, args, kwargs, skip_self=True) if init else (args, kwargs)
                return mk_call(ft, a2, k2, {n: const(d.value) for n, d in init.defaults().items() if isinstance(d, ast.Constant)}
                               if init and not any(a[0] == 'star' for a in args) else ())
            fields = self._fields(q)
            if fields and not any(a[0] == 'star' for a in args) and '**' not in kwargs and len(args) <= len(fields):
                return mk_call(ft, [], dict(zip(fields, args), **kwargs))
        if ft[0] == 'call' and ft[1][0] == 'g' and len(args) == 1 and not kwargs and len(ft[2]) == 1 and not ft[3]:
            if ft[1][1] == 'ext:operator.attrgetter' and ft[2][0][:2] == ('c', 'str') and ft[2][0][2].isidentifier():
                return self.get_attr(args[0], ft[2][0][2], st)
            if ft[1][1] == 'ext:operator.itemgetter':
                return mk_index(args[0], ft[2][0])
        if ft[0] == 'b' and ft[1] in PURE_BUILTINS:
            return mk('call', ft, tuple(args), tuple(sorted(kwargs.items())))
        if self._is_precision(ft) and len(args) == 1 and not kwargs:
            return self.conv(args[0])
        return self.emit_call(ft, None, args, kwargs, st, None)

    def conv(self, x):
        """A figure expressed in the chosen numeric type (left out unless precision is the question)."""
        if self.strip_precision:
            return x
        if x[0] == 'ite':
            return mk_ite(x[1], self.conv(x[2]), self.conv(x[3]))
        if x == NONE:
            return x
        n = T.neg(x)
        if n[0] in ('inf', 'a', 'p'):
            return T.neg(self.conv(n))
        if x[0] == 'call' and x[1] == ('b', 'precision_convert'):
            return x
        return mk('call', ('b', 'precision_convert'), (x,), ())

    def _is_precision(self, ft):
        return (ft[0] in ('a', 'p', 'fv', 'lp') and ft[-1] in ('high_precision', 'precision_convert')) or ft == ('p', 'high_precision')

    def _fields(self, q):
        """Field names of a named tuple of the package."""
        mod, _, name = q.partition(':')
        e = self.p.modules[mod].consts.get(name) if mod in self.p.modules else None
        if not (isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) == 'namedtuple' and len(e.args) >= 2):
            return None
        f = e.args[1]
        if isinstance(f, ast.Constant) and isinstance(f.value, str):
            return f.value.replace(',', ' ').split()
        if isinstance(f, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in f.elts):
            return [x.value for x in f.elts]
        return None

    def _sorted(self, v, kws, st):
        v = T.strip_order(v)
        kf = self._key(self.ev(kws['key'], st), v, st) if 'key' in kws else NONE
        rv = self.ev(kws['reverse'], st) if 'reverse' in kws else FALSE
        if kf[0] == 'lam' and rv == TRUE:
            body = kf[3]
            if T.numericish(body):
                # sort descending by f == ascending by -f
                kf = mk(*kf[:3], neg(body), *kf[4:])
                rv = FALSE
        if kf == NONE and rv == FALSE:
            return mk('sorted', v)
        return mk('sorted', v, kf, rv)

    def _key(self, kf, coll, st):
        """What a key function gives for one element, however the function is spelled."""
        if kf == NONE or kf[0] == 'lam' and kf[7] != NONE:
            return kf
        x = T.fresh()
        ls = st.fork()
        n = len(ls.eff)
        if kf[0] == 'a' and kf[2] in ('get', '__getitem__'):
            body = mk_index(kf[1], x)
            if kf[2] == 'get':
                body = mk_ite(T.mk_in(x, kf[1]), body, NONE)
        else:
            body = self.call_term(kf, None, [x], {}, ls)
        if len(ls.eff) > n and not (kf[0] == 'a' and kf[2] in PURE_METHODS):
            return kf
        body = T.subst(body, {T.mk_in(x, coll): TRUE})
        if body[0] == 'opaque':
            return kf
        h = 1 + max([y[1] for y in T.walk(body) if y[0] == 'lp'] + [0])
        return mk('lam', h, 1, T.subst(body, {x: mk('lp', h, 0)}), mk('c', 'names', 'x'), (), mk('c', 'npos', '1'), NONE)

    def _res_qual(self, q):
        if ':' not in q:
            return None
        mod, name = q.split(':', 1)
        m = self.p.modules.get(mod)
        if m is None:
            return None
        if name in m.functions:
            return ('func', m.functions[name])
        if name in m.classes:
            return ('class', m.classes[name])
        return None

    def _args(self, e, st):
        args = self._elts(e.args, st)
        kwargs = {}
        for kw in e.keywords:
            v = self.ev(kw.value, st)
            if kw.arg is None:
                self.need(v)
                if v[0] == 'dict' and all(k[0] == 'c' and k[1] == 'str' for k, _ in v[1]):
                    for k, x in v[1]:
                        kwargs[k[2]] = x
                else:
                    kwargs['**'] = v
            else:
                kwargs[kw.arg] = v
        return args, kwargs

    def call_super(self, name, e, st):
        owner = self.func.cls
        m = self.cls.lookup(name, after=owner) if owner is not None and self.cls is not None else None
        args, kwargs = self._args(e, st)
        if m is not None and self.should_inline_super(m):
            return self.inline(m, self.cls, SELF, args, kwargs, st)
        ft = mk('super', name, mk('c', 'str', m.cls.name if m else '?'))
        r = self.emit_call(ft, m, args, kwargs, st, SELF)
        if m is None and name == 'default' and owner is not None and any(b.split('.')[-1] == 'JSONEncoder' for b in owner.ext_bases):
            return NONE     # always fails: there is no value to tell apart
        return r

    def should_inline_super(self, m):
        if m in self.stack or len(self.stack) > self.max_depth:
            return False
        if self.inline_super is True:
            return m.name not in self.atoms
        if self.inline_super:
            return m.name in self.inline_super
        return self.baseline is not None and m.qual not in self.baseline

    def should_inline(self, f, prop=False):
        if getattr(f, 'is_law', False):
            return f not in self.stack and len(self.stack) <= self.max_depth and not any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        if f is self.again and self.stack.count(f) == 1:
            return True
        if f in self.stack or len(self.stack) > self.max_depth:
            return False
        if f.name in self.atoms or f.short in self.atoms:
            return False
        if f.short in self.inline_public or f.name in self.inline_public:
            return True
        if prop and f.name in self.inline_props:
            return True
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return False
        if prop:
            return (self.baseline is not None and f.qual not in self.baseline)
        if f.cls is not None and f.cls.name in HEAVY and self.baseline is not None and f.qual in self.baseline:
            return False
        if self.baseline is None or f.qual not in self.baseline:
            return self.baseline is not None or (f.name.startswith('_') and not f.name.startswith('__'))
        if f.name.startswith('_') and not f.name.startswith('__'):
            # a private helper: its contract is stated separately unless its
            # signature changed or everything is being looked through
            return self.deep or list(self.baseline[f.qual]) != [list(x) if isinstance(x, (list, tuple)) else x for x in f.params()]
        return False

    def call_method(self, o, name, e, st, recv_node):
        # generator-consuming container methods and views
        if name == 'fromkeys' and o == mk('b', 'dict') and 1 <= len(e.args) <= 2 and not e.keywords:
            it, v = self.ev(e.args[0], st), self.ev(e.args[1], st) if len(e.args) > 1 else NONE
            fake = ast.DictComp(key=ast.Name('k$', ast.Load()), value=_Term(v), generators=[
                ast.comprehension(ast.Name('k$', ast.Store()), _Term(it), [], 0)])
            return self._comp('dictc', ast.fix_missing_locations(fake), st)
        if name in ('keys',) and not e.args:
            return o
        if name in ('values', 'items') and not e.args and not e.keywords:
            return mk(name, o)
        if name == 'copy' and not e.args:
            return self._copy(o)
        args, kwargs = self._args(e, st)
        if name == 'union':
            return T.mk_union([o] + [x for a in args for x in self._spread(a)])
        if name == 'intersection' and len(args) == 1:
            p = sorted((o, args[0]), key=key)
            return mk('inter', p[0], p[1])
        if name == 'difference' and len(args) == 1:
            return mk('setdiff', o, args[0])
        if name == '__getitem__' and len(args) == 1:
            return mk_index(o, args[0])
        if name == '__iter__' and not args and not kwargs:
            return o
        if name == '__contains__' and len(args) == 1:
            return T.mk_in(args[0], o)
        if not args and not kwargs and name in self.opposites():
            return b_not(T.truthy(mk('call', mk('a', o, self.opposites()[name]), (), ())))
        cls = self.cls_of(o)
        m = cls.lookup(name) if cls is not None else None
        if m is not None and m.kind in ('method', 'static', 'class'):
            return self.call_func(m, cls, o, args, kwargs, st, mk('a', o, name))
        if m is not None and m.kind in ('property', 'recorded', 'cached'):
            ft = self.get_attr(o, name, st)
            return self.call_term(ft, None, args, kwargs, st)
        if name in ('precision_convert', 'high_precision') and len(args) == 1 and not kwargs:
            return self.conv(args[0])
        if cls is not None:
            hv = st.heap.get((_base(o), name))
            if hv is not None and hv[0] in ('lam', 'g'):
                return self.call_term(hv, None, args, kwargs, st)
        # containers
        if name in MUTATORS and not self._repo_method(name, o):
            return self.mutator(o, name, args, kwargs, st, recv_node, e)
        if name == 'get' and args:
            return T.mk_ite(T.mk_in(args[0], o), mk_index(o, args[0]),
                            args[1] if len(args) > 1 else kwargs.get('default', NONE))
        return self.emit_call(mk('a', o, name), None, args, kwargs, st, o)

    def _repo_method(self, name, o):
        return False

    def mutator(self, o, name, args, kwargs, st, node, e=None):
        if isinstance(node, ast.Name) and _fresh_container(o):
            if name == 'append' and o[0] == 'list' and len(args) == 1:
                st.env[node.id] = mk('list', o[1] + (args[0],))
                return NONE
            if name == 'add' and o[0] == 'set' and len(args) == 1:
                st.env[node.id] = mk('set', tuple(sorted(set(o[1]) | {args[0]}, key=key)))
                return NONE
            if name in ('append', 'add') and len(args) == 1:
                st.env[node.id] = mk('upd', name, args[0], o)
                return NONE
            if name == 'update' and len(args) == 1:
                if o[0] in ('dict', 'copy', 'dictc') or o[:2] == ('op', 'dictmerge') or args[0][0] in ('dict', 'dictc'):
                    if o == mk('dict', ()):
                        st.env[node.id] = args[0]
                    elif args[0] == mk('dict', ()):
                        pass
                    else:
                        st.env[node.id] = mk('op', 'dictmerge', o, args[0])
                elif o[0] == 'upd':
                    st.env[node.id] = mk('upd', 'union', args[0], o)
                else:
                    st.env[node.id] = T.mk_union([o, args[0]])
                return NONE
            if name == 'sort' and not args and o[0] != 'upd' and isinstance(e, ast.Call):
                st.env[node.id] = self._sorted(o[1] if o[0] in ('tolist', 'copy') else o, {k.arg: k.value for k in e.keywords if k.arg}, st)
                return NONE
            if name == 'extend' and len(args) == 1 and o[0] == 'list' and args[0][0] in ('list', 'tuple'):
                st.env[node.id] = mk('list', o[1] + args[0][1])
                return NONE
            if name == 'extend' and len(args) == 1 and not kwargs and o[0] in ('list', 'listc', 'cat', 'tolist') and \
                    args[0][0] in ('list', 'listc', 'tolist', 'cat', 'sorted', 'tuple') and T.nleaves(args[0]) == 1:
                x = args[0][1][0] if args[0][0] == 'tuple' and len(args[0][1]) == 1 and args[0][1][0][0] == 'listc' else args[0]
                st.env[node.id] = T.add(o, x)
                return NONE
            if name == 'pop' and 1 <= len(args) <= 2 and not kwargs and args[0][0] == 'c' and args[0][1] == 'str' and _table(o):
                st.env[node.id] = T.mk_delkey(o, args[0])
                got = mk_index(o, args[0])
                return got if len(args) == 1 else T.mk_ite(T.mk_in(args[0], o), got, args[1])
            if name == 'setdefault' and len(args) == 2 and not kwargs and args[1][0] not in CONTAINER_HEADS and \
                    args[1][0] not in ('call', 'ite', 'tuple') and T.nleaves(o) <= 8 and all(_table(x) for x, _ in T.leaves(o)):
                st.env[node.id] = T.lift(lambda x: T.mk_ite(T.mk_in(args[0], x), x, T.mk_store(x, args[0], args[1])), o)
                return T.lift(lambda x: T.mk_ite(T.mk_in(args[0], x), mk_index(x, args[0]), args[1]), o)
            old = o
            st.env[node.id] = mk('upd', name, mk('tuple', tuple(args)), o)
            return mk('call', mk('a', old, name), tuple(args), tuple(sorted(kwargs.items())))
        b = _base(o)
        if name == 'pop' and len(args) == 2 and not kwargs and args[0][0] == 'c':
            # taken out if it is there
            there = T.mk_in(args[0], o)
            t = T.mk_ite(there, mk('call', mk('a', o, name), (args[0],), ()), args[1])
            s1, s2 = st.fork(), st.fork()
            s1.eff.append(('mut', b, name, (args[0],), ()))
            self.bump(b, s1)
            self._merge(there, st, s1, s2)
            return t
        st.eff.append(('mut', b, name, tuple(args), tuple(sorted(kwargs.items()))))
        t = mk('call', mk('a', o, name), tuple(args), tuple(sorted(kwargs.items())))
        self.bump(b, st)
        return t

    def opposites(self):
        """Operations each defined once, as `return not self.other()` with other defined once, too."""
        if getattr(self.p, 'opposites', None) is None:
            self.p.opposites, T.IMPLIES[0] = _questions(self.p)
        return self.p.opposites

    def _spread(self, a):
        """Arguments of a union: what a starred collection of collections comes to."""
        if a[0] != 'star':
            return [a]
        v = fresh()
        base, el, c = T.iter_source(a[1])
        bv, (b, c) = T.close(v, el(v), c(v))
        return [mk('unionover', bv[1], base, b, c)]

    def bind_names(self, m, args, kwargs, skip_self):
        """Positional arguments of a resolved callee become keywords."""
        if m is None:
            return args, kwargs
        pos, kwo, va, kw = m.params()
        if skip_self and m.kind not in ('function', 'static'):
            pos = pos[1:]
        if any(a[0] == 'star' for a in args):
            return args, kwargs
        out = dict(kwargs)
        rest = []
        for i, a in enumerate(args):
            if i < len(pos):
                out[pos[i]] = a
            else:
                rest.append(a)
        return rest, out

    def call_func(self, m, cls, o, args, kwargs, st, ft):
        if m.name == 'precision_convert' and len(args) == 1 and not kwargs:
            return self.conv(args[0])
        m = self.swap.get(m.qual, m)
        if self.should_inline(m) and '**' not in kwargs and not any(a[0] == 'star' for a in args):
            return self.inline(m, cls or m.cls, o, args, kwargs, st)
        return self.emit_call(ft, m, args, kwargs, st, o)

    def emit_call(self, ft, m, args, kwargs, st, recv):
        name = ft[2] if ft[0] == 'a' else (ft[1] if ft[0] == 'super' else None)
        if name in _ACCESSORS and kwargs and m is None and ft[0] == 'a' and set(kwargs) <= set(_ACCESSORS[name][len(args):]) \
                and set(kwargs) == set(_ACCESSORS[name][len(args):len(args) + len(kwargs)]):
            args = list(args) + [kwargs[n] for n in _ACCESSORS[name][len(args):len(args) + len(kwargs)]]
            kwargs = {}
        idle = {}       # arguments equal to their constant defaults are left out
        if m is None and ft[0] == 'a':
            # method on an object of unknown class: use the repo's methods of that name
            cands = self.p.methods_named(ft[2])
            cands = [c for c in cands if c.kind in ('method',)]
            if cands and not any(a[0] == 'star' for a in args):
                sigs = {tuple(c.params()[0][1:1 + len(args)]) for c in cands}
                if len(sigs) == 1 and len(next(iter(sigs))) == len(args):
                    kwargs = dict(zip(next(iter(sigs)), args), **kwargs)
                    args = []
                    for c in cands[:1]:
                        for n, d in c.defaults().items():
                            if isinstance(d, ast.Constant) and all(
                                    n in cc.defaults() and isinstance(cc.defaults()[n], ast.Constant) and cc.defaults()[n].value == d.value for cc in cands):
                                idle[n] = const(d.value)
        elif m is not None:
            args, kwargs = self.bind_names(m, args, kwargs, skip_self=True)
            if not any(a[0] == 'star' for a in args):
                idle = {n: const(d.value) for n, d in m.defaults().items() if isinstance(d, ast.Constant)}
        if ft[0] == 'a' and name is not None and recv is not None:
            ms = st.ver.get(('mods', _base(recv)))
            if ms:
                rd = self.purity.reads_of(name)
                n = sum(1 for s in ms if s & rd)
                if n:
                    ft = mk('a', mk('v', _base(recv), n), name)
        if m is not None and m.kind == 'function' and m not in self.purity.impure:
            # whether a function that only looks at a table is given it or a copy of it
            kwargs = {n: v[1] if v[0] == 'copy' and m in self.purity.info and not self.purity.hands_back(m, n) else v for n, v in kwargs.items()}
        t = mk_call(ft, args, kwargs, idle)
        impure = False
        if m is not None:
            impure = m in self.purity.impure
            # dynamic dispatch: an override may be impure
            if not impure and m.cls is not None:
                impure = any(x in self.purity.impure for x in self.p.methods_named(m.name)
                             if x.cls and (x.cls in (self.cls.mro if self.cls else [])))
        elif ft[0] == 'a':
            impure = ft[2] in self.purity.impure_names or ft[2] in self.keep_calls
        elif ft[0] in ('p', 'fv', 'lp') or ft[0] == 'i':
            impure = True   # calling an unknown callable
        elif ft[0] == 'g' and ft[1].startswith('ext:'):
            impure = ft[1] not in PURE_EXT
        elif ft[0] == 'super':
            impure = bool(args or kwargs) and name in ('__init__', '__setattr__', '__setitem__', '__delitem__', 'update')
        else:
            impure = False
        if name in self.keep_calls:
            impure = True
        if ft[0] in ('p', 'a', 'i', 'fv') and not (ft[0] == 'a' and self.p.methods_named(ft[2])):
            # call of a stored callable (strategy, sub-forecast, rate function)
            if ft[0] != 'a' or ft[2] not in PURE_METHODS:
                st.eff.append(mk('call', t))
                return t
        if impure:
            st.eff.append(mk('call', t))
            if recv is not None:
                self.bump_call(recv, m.name if m is not None else name, st)
            if m is not None:
                for n in self.purity.mutparams.get(m, ()):
                    v = kwargs.get(n)
                    if v is not None:
                        self.bump(v, st)
            if name is not None and not args and ft[0] in ('a', 'super') and self._procedure(m.name if m is not None else name):
                return NONE
        return t

    def _procedure(self, name):
        """No method of that name ever gives anything back."""
        memo = self.p.__dict__.setdefault('_procedures', {})
        if name not in memo:
            memo[name] = True       # while it is being looked at
            ms = self.p.methods_named(name)
            memo[name] = bool(ms) and not name.startswith('__') and all(self._gives_nothing(m) for m in ms)
        return memo[name]

    def _gives_nothing(self, m):
        if m.kind != 'method' or isinstance(m.node.body[-1], ast.Raise):
            return False
        todo, back = list(m.node.body), []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return False
            if isinstance(n, ast.Return) and n.value is not None:
                back.append(n.value)
            todo += list(ast.iter_child_nodes(n))
        return all(isinstance(v, ast.Constant) and v.value is None or isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and
                   isinstance(v.func.value, ast.Name) and v.func.value.id == 'self' and self._procedure(v.func.attr) for v in back)

    def inline(self, m, cls, o, args, kwargs, st):
        pos, kwo, va, kw = m.params()
        env = {}
        p = list(pos)
        if m.kind not in ('function', 'static') and p:
            env[p[0]] = o if o is not None else SELF
            p = p[1:]
        extra = []
        for i, a in enumerate(args):
            if i < len(p):
                env[p[i]] = a
            else:
                extra.append(a)
        rest = {}
        for k, v in kwargs.items():
            if k in p or k in kwo:
                env[k] = v
            else:
                rest[k] = v
        saved = (self.cls, self.func)
        for n, d in m.defaults().items():
            if n not in env:
                self.cls, self.func = m.cls, m
                try:
                    env[n] = self.ev(d, State())
                finally:
                    self.cls, self.func = saved
        if va:
            env[va] = mk('tuple', tuple(extra))
        if kw:
            env[kw] = mk('dict', tuple((mk('c', 'str', k), v) for k, v in sorted(rest.items())))
        for n in p + kwo:
            env.setdefault(n, UNDEF)
        env0 = dict(env)
        sub_st = State(env)
        sub_st.heap = st.heap
        sub_st.ver = st.ver
        sub_st.eff = st.eff
        self_t = env.get(pos[0]) if m.kind not in ('function', 'static') and pos else None
        saved = (self.cls, self.func)
        self.cls = cls if self_t is not None and _base(self_t) == SELF else (cls if self_t is None else None)
        self.func = m
        self.stack.append(m)
        try:
            out = self.block(m.node.body, sub_st, ())
        finally:
            self.stack.pop()
            self.cls, self.func = saved
        st.heap, st.ver = sub_st.heap, sub_st.ver
        self._write_back(m, env0, sub_st, st)
        if sub_st.eff is not st.eff:
            st.eff[:] = sub_st.eff
        if out == END:
            return NONE
        if T.contains(out, lambda x: x == END):
            out = T.subst(out, {END: NONE})
        r = _raises(out)
        if r != END:
            self.pend.append((r, len(st.eff), dict(st.heap)))
            out = _strip_raise(out)
        return out

    def inline_local(self, d, lam, args, kwargs, st):
        """A function defined inside this one, called here: its body is read in place."""
        a = d.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        own = pos + [x.arg for x in a.kwonlyargs]
        if a.vararg or a.kwarg or '**' in kwargs or any(x[0] == 'star' for x in args) or len(args) > len(pos):
            return None
        outer = {n for x in ast.walk(d) if isinstance(x, ast.Nonlocal) for n in x.names}
        outer |= {n for n in _filled(d.body) if n not in own and n in st.env and not _stored(d, n)}
        if lam[7] == NONE and not outer and not any(x in own for x in _filled(d.body)):
            return None
        if d in self.stack or len(self.stack) > self.max_depth:
            return None
        env = dict(st.env)
        for n in own:
            env[n] = UNDEF
        for n, v in list(lam[5]):
            env[n] = v
        env.update(zip(pos, args))
        for k, v in kwargs.items():
            if k not in own:
                return None
            env[k] = v
        env0 = {n: env[n] for n in own}
        sub = State(env)
        sub.heap, sub.ver, sub.eff = st.heap, st.ver, st.eff
        self.stack.append(d)
        try:
            out = self.block(d.body, sub, ())
        finally:
            self.stack.pop()
        st.heap, st.ver = sub.heap, sub.ver
        for n in outer:
            if n in sub.env:
                st.env[n] = sub.env[n]
        if sub.eff is not st.eff:
            st.eff[:] = sub.eff
        self._write_back(d, env0, sub, st)
        if T.contains(out, lambda x: x == END):
            out = T.subst(out, {END: NONE})
        r = _raises(out)
        if r != END:
            self.pend.append((r, len(st.eff), dict(st.heap)))
            out = _strip_raise(out)
        return out

    def _write_back(self, m, env0, sub_st, st):
        """A container the caller built and the helper filled: the caller sees it filled."""
        rebound = None
        for n, v in env0.items():
            w = sub_st.env.get(n)
            if w is None or w == v or not isinstance(v, T.Tm) or not _fresh_container(v):
                continue
            if rebound is None:
                rebound = {t.id for x in ast.walk(getattr(m, 'node', m)) if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For))
                           for tt in (x.targets if isinstance(x, ast.Assign) else [x.target])
                           for t in ast.walk(tt) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
            if n in rebound:
                continue
            holders = [k for k, x in st.env.items() if x == v]
            if len(holders) == 1:
                st.env[holders[0]] = w
            else:
                for k in holders:
                    st.env[k] = mk('opaque', mk('c', 'filled', k))

    # ------------------------------------------------------------ builtins
    def builtin(self, name, e, st):
        args = e.args
        kws = {k.arg: k.value for k in e.keywords}

        def isgen(x):
            return isinstance(x, (ast.GeneratorExp, ast.ListComp))
        if name == 'sum' and args:
            start = ZERO
            if len(args) > 1:
                start = self.ev(args[1], st)
            elif 'start' in kws:
                start = self.ev(kws['start'], st)
            if isgen(args[0]):
                return add(start, self._comp('sum', args[0], st))
            it = self.ev(args[0], st)
            return add(start, T.mk_sum(it, lambda x: x))
        if name in ('any', 'all') and len(args) == 1:
            if isgen(args[0]) or isinstance(args[0], ast.SetComp):
                return self._comp(name, args[0], st)
            it = self.ev(args[0], st)
            if name == 'any':
                return T.comp('any', it, lambda x: truthy(x))
            return b_not(T.comp('any', it, lambda x: b_not(truthy(x))))
        if name in ('min', 'max'):
            if 'key' in kws:
                its = self._elts(args, st)
                kf = self._key(self.ev(kws['key'], st), T.strip_order(its[0]) if len(its) == 1 else NONE, st)
                d = self.ev(kws['default'], st) if 'default' in kws else NONE
                return mk('op', name + 'key', mk('tuple', tuple(its)), kf, d)
            if len(args) == 1 and not isinstance(args[0], ast.Starred):
                if isgen(args[0]):
                    r = self._comp('maxover' if name == 'max' else 'minover', args[0], st)
                else:
                    it = self.ev(args[0], st)
                    if all(x[0] in ('tuple', 'list', 'set') and x[1] and not any(y[0] == 'star' for y in x[1]) for x, _ in T.leaves(it)):
                        return T.lift(lambda x: (mk_max if name == 'max' else mk_min)(x[1]), it)
                    base, el, c = T.iter_source(it, dups=True)
                    v = fresh()
                    b = el(v)
                    if name == 'min':
                        b = neg(b)
                    bv, (b, c) = T.close(v, b, c(v))
                    r = mk('maxover', bv[1], base, b, c, NONE)
                best = r if name == 'max' else neg(r)
                if 'default' not in kws:
                    return best
                return mk_ite(T.mk_any(r[1], r[2], r[4]), best, self.ev(kws['default'], st))
            its = self._elts(args, st)
            if any(i[0] == 'star' for i in its):
                return mk('call', mk('b', name), tuple(its), ())
            return mk_max(its) if name == 'max' else mk_min(its)
        if name == 'isinstance' and len(args) == 2:
            o = self.ev(args[0], st)
            c = self.ev(args[1], st)
            cs = c[1] if c[0] == 'tuple' else (c,)

            def isin(x):
                r = []
                for k in cs:
                    if x[0] == 'call' and x[1] == k:
                        return TRUE
                    lay = {'listc': 'list', 'tolist': 'list', 'sorted': 'list', 'dictc': 'dict', 'setc': 'set'}.get(x[0], x[0])
                    y = T.INSTANCE[0](x[1], k) if x[0] == 'call' else T._kinds(mk('b', lay), k) if lay in ('list', 'dict', 'set', 'tuple') else None
                    if x[0] == 'c' and x[1] == 'str':
                        y = T._kinds(mk('b', 'str'), k)
                    if y is None and x[0] in ('n', 'c') and k[0] == 'g':
                        y = False
                    if x[0] in ('n', 'c') and x[1] != 'str' and k[0] == 'b' and k[1] in ('dict', 'list', 'tuple', 'set', 'str', 'frozenset', 'bytes'):
                        y = False
                    if y is not None:
                        r.append(TRUE if y else FALSE)
                        continue
                    r.append(mk('isinst', x, k))
                return b_or(*r)
            return T.lift(isin, o)
        if name in ('set', 'frozenset'):
            if not args:
                return mk('set', ())
            if isgen(args[0]):
                return self._comp('setc', args[0], st)
            v = self.ev(args[0], st)
            if v[0] in ('list', 'tuple', 'set'):
                return mk('set', tuple(sorted(set(v[1]), key=key)))
            if v[0] in ('setc', 'toset', 'union', 'unionover', 'setdiff'):
                return v
            if v[0] == 'listc':
                return mk('setc', *v[1:])
            v = T.strip_order(v)
            return mk('toset', v)
        if name in ('list', 'tuple'):
            if not args:
                return mk(name, ())
            v = self.ev(args[0], st)
            if v[0] in ('list', 'tuple'):
                return mk(name, v[1])
            if v[0] in ('listc', 'tolist', 'sorted'):
                return v
            return mk('tolist', v)
        if name == 'iter' and len(args) == 1:
            return self.ev(args[0], st)
        if name == 'dict':
            if not args and not e.keywords:
                return mk('dict', ())
            if len(args) == 1 and not e.keywords:
                if isgen(args[0]):
                    g = args[0]
                    if isinstance(g.elt, ast.Tuple) and len(g.elt.elts) == 2:
                        fake = ast.DictComp(key=g.elt.elts[0], value=g.elt.elts[1], generators=g.generators)
                        return self._comp('dictc', fake, st)
                v = self.ev(args[0], st)
                if v[0] == 'items':
                    v = v[1]
                return self._copy(v)
            if not args and all(k.arg for k in e.keywords):
                return mk('dict', tuple((mk('c', 'str', k.arg), self.ev(k.value, st)) for k in e.keywords))
            return None
        if name == 'sorted' and args:
            return self._sorted(self.ev(args[0], st), kws, st)
        if name == 'next' and len(args) == 1 and isinstance(args[0], ast.Call) and isinstance(args[0].func, ast.Name) and \
                args[0].func.id == 'iter' and len(args[0].args) == 1 and 'iter' not in st.env:
            v = self.ev(args[0].args[0], st)
            if v[0] not in ('call', 'yieldv', 'opaque'):
                return mk_index(v, ZERO)        # the first (or only) element, as unpacking gives it
        if name == 'len' and len(args) == 1:
            v = T.strip_order(self.ev(args[0], st))
            if v[0] in ('list', 'tuple', 'dict'):
                return num(len(v[1]))
            if '__len__' in self.inline_public:
                cls = self.cls_of(v)
                m = cls.lookup('__len__') if cls is not None else None
                if m is not None and m.kind == 'method':
                    return self.call_func(m, cls, v, [], {}, st, mk('a', v, '__len__'))
            if v[0] == 'ite' and T.nleaves(v) <= T.LEAF_LIMIT:
                return T.lift(lambda x: num(len(x[1])) if x[0] in ('list', 'tuple', 'dict') else mk('len', x), v)
            return mk('len', v)
        if name == 'abs' and len(args) == 1:
            v = self.ev(args[0], st)
            return T.lift(lambda x: mk_max([x, neg(x)]), v)
        if name == 'range':
            a = self._elts(args, st)
            if len(a) == 1:
                a = [ZERO] + a
            return mk('range', a[0], a[1], a[2] if len(a) > 2 else ONE)
        if name == 'float' and len(args) == 1 and isinstance(args[0], ast.Constant) and isinstance(args[0].value, str):
            return const(float(args[0].value))
        if name == 'float' and len(args) == 1 and isinstance(args[0], ast.IfExp):
            v = self.ev(args[0], st)
            if T.nleaves(v) <= 8 and all(x[:2] == ('c', 'str') and x[2].lower() in ('inf', '-inf', 'infinity', '-infinity') for x, _ in T.leaves(v)):
                return T.lift(lambda x: const(float(x[2])), v)
        if name in ('int', 'float', 'str') and len(args) == 1 and not kws and not isinstance(args[0], ast.Starred):
            def cast(x):
                if x[0] == 'call' and x[1] == mk('b', name) and len(x[2]) == 1 and not x[3]:
                    return x        # already converted
                if x[0] == 'c' and x[1] == 'str' and name == 'str':
                    return x
                return mk('call', mk('b', name), (x,), ())
            v = self.ev(args[0], st)
            return T.lift(cast, v) if T.nleaves(v) <= 24 else cast(v)
        if name == 'getattr' and 2 <= len(args) <= 3 and not kws:
            o, nm = self.ev(args[0], st), self.ev(args[1], st)
            if all(x[:2] == ('c', 'str') for x, _ in T.leaves(nm)):
                def named(x):
                    return self.get_attr(o, x[2], st)
                got = T.lift(named, nm)
                if len(args) == 2:
                    return got
                d = self.ev(args[2], st)
                return mk_ite(T.lift(T.mk_hasattr, o, nm), got, d)
            got = mk('call', mk('b', 'getattr'), (o, nm), ())
            if len(args) == 2:
                return got
            return mk_ite(T.lift(T.mk_hasattr, o, nm), got, self.ev(args[2], st))
        if name == 'hasattr' and len(args) == 2:
            o, nm = self.ev(args[0], st), self.ev(args[1], st)
            return T.lift(T.mk_hasattr, o, nm)
        if name == 'setattr' and len(args) == 3 and isinstance(args[1], ast.Constant):
            self.set_attr(self.ev(args[0], st), args[1].value, self.ev(args[2], st), st)
            return NONE
        if name == 'setattr' and len(args) == 3:
            a = [self.ev(x, st) for x in args]
            st.eff.append(('setattr', _base(a[0]), a[1], a[2]))
            return NONE
        if name == 'delattr' and len(args) == 2:
            a = [self.ev(x, st) for x in args]
            if a[1][0] == 'c':
                self.eff_del(a[0], a[1][2], st)
            else:
                st.eff.append(('delattr', _base(a[0]), a[1]))
            return NONE
        if name == 'bool' and len(args) == 1:
            return self.cond(args[0], st)
        if name == 'map' and len(args) == 2:
            f = self.ev(args[0], st)
            it = self.ev(args[1], st)
            return T.comp('listc', it, lambda x: self.call_term(f, None, [x], {}, st))
        if name == 'filter' and len(args) == 2:
            f = self.ev(args[0], st)
            it = self.ev(args[1], st)
            return T.comp('listc', it, lambda x: x, lambda x: truthy(self.call_term(f, None, [x], {}, st)))
        if name == 'super':
            return mk('super', '', NONE)
        if name in PURE_BUILTINS:
            a, k = self._args(e, st)
            return mk('call', mk('b', name), tuple(a), tuple(sorted(k.items())))
        return None


PURE_EXT = {'ext:collections.defaultdict', 'ext:math.log', 'ext:dateutil.parser.parse', 'ext:datetime.datetime',
            'ext:dateutil.relativedelta.relativedelta', 'ext:collections.namedtuple', 'ext:os.path.join',
            'ext:os.path.isabs', 'ext:os.path.dirname', 'ext:networkx.DiGraph', 'ext:queue.SimpleQueue',
            'ext:inspect.getmembers', 'ext:networkx.algorithms.flow.max_flow_min_cost',
            'ext:datetime.datetime.today', 'ext:math.exp', 'ext:math.pow', 'ext:datetime.datetime.now'}


# methods of plain values (text, numbers, dates, containers) that only compute
PURE_METHODS = {'replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'join', 'format',
                'startswith', 'endswith', 'find', 'index', 'count', 'isdigit', 'isnumeric', 'isdecimal', 'title', 'encode', 'decode',
                'is_integer', 'is_nan', 'is_infinite', 'is_finite', 'as_integer_ratio', 'quantize', 'normalize', 'ln', 'exp',
                'sqrt', 'copy_abs', 'date', 'time', 'timetuple', 'toordinal', 'weekday', 'isoformat', 'strftime', 'timestamp',
                'total_seconds', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset',
                'isdisjoint', 'copy', 'keys', 'values', 'items', 'get', '_asdict', '_replace'}


# fail on None
NEEDY = {'len', 'sum', 'min', 'max', 'sorted', 'list', 'tuple', 'set', 'frozenset', 'any', 'all', 'dict', 'float', 'int', 'abs',
         'enumerate', 'zip', 'iter', 'reversed', 'next', 'round'}

# parameter names of what comes from elsewhere: the first stays positional
EXT_PARAMS = {
    'open': ('file', 'mode', 'buffering', 'encoding', 'errors', 'newline'),
    'round': ('number', 'ndigits'),
    'ext:json.load': ('fp',),
    'ext:json.loads': ('s',),
    'ext:json.dump': ('obj', 'fp'),
    'ext:json.dumps': ('obj',),
    'ext:datetime.datetime': ('year', 'month', 'day', 'hour', 'minute', 'second'),
    'ext:dateutil.relativedelta.relativedelta': ('dt1', 'dt2'),
}


def mk_call(ft, args, kwargs, idle=()):
    """Call term with decision diagrams lifted out of callee and arguments."""
    names = sorted(kwargs)
    parts = [ft] + list(args) + [kwargs[k] for k in names]
    n = 1
    for x in parts:
        n *= T.nleaves(x)
    na = len(args)

    def build(*xs):
        kws = tuple(zip(names, xs[1 + na:]))
        if names and names[0] == '**':
            kws = _spread(kws)
        if idle:
            kws = tuple((k, v) for k, v in kws if k not in idle or idle[k] != v)
        return mk('call', xs[0], tuple(xs[1:1 + na]), kws)
    if n > 24:
        return build(*parts)
    return T.lift(build, *parts)


def _has_leaf(o, x):
    if o[0] == 'ite':
        return _has_leaf(o[2], x) or _has_leaf(o[3], x)
    return o == x


def _falls(o):
    if o[0] == 'ite':
        return mk_ite(o[1], _falls(o[2]), _falls(o[3]))
    return TRUE if o == END else FALSE


def _replace_end(o, t):
    if o[0] == 'ite':
        return mk_ite(o[1], _replace_end(o[2], t), _replace_end(o[3], t))
    return t if o == END else o


def _raises(o):
    if o[0] == 'ite':
        return mk_ite(o[1], _raises(o[2]), _raises(o[3]))
    return o if o[0] == 'raise' else END


def _strip_raise(o):
    if o[0] == 'ite':
        a, b = _strip_raise(o[2]), _strip_raise(o[3])
        if a == UNDEF:
            return b
        if b == UNDEF:
            return a
        return mk_ite(o[1], a, b)
    return UNDEF if o[0] == 'raise' else o


class _Term(ast.expr):
    """An expression that has been evaluated already."""
    _fields = ()

    def __init__(self, term):
        self.term = term
        self.lineno = self.col_offset = 0


def _cont_to_end(o):
    if o[0] == 'ite':
        return mk_ite(o[1], _cont_to_end(o[2]), _cont_to_end(o[3]))
    return END if o == CONT else o


def _brk_to_end(o):
    if o[0] == 'ite':
        return mk_ite(o[1], _brk_to_end(o[2]), _brk_to_end(o[3]))
    return END if o == BRK else o


_ACCESSORS = {'fget': ('obj',), 'fset': ('obj', 'val'), 'fdel': ('obj',)}    # as recorded_property names them
_GETATTR = mk('b', 'getattr')


def _literal(it):
    """The elements of a sequence written out, if it is short."""
    if it[0] in ('tuple', 'list') and 0 < len(it[1]) <= 8 and not any(x[0] == 'star' for x in it[1]):
        return list(it[1])
    if it[0] in ('items', 'values') and it[1][0] == 'dict' and 0 < len(it[1][1]) <= 8 and all(k[0] == 'c' for k, _ in it[1][1]):
        return [mk('tuple', (k, v)) if it[0] == 'items' else v for k, v in it[1][1]]
    return None


def _by_source(s, i):
    """The body of a loop over a sequence written out, at its i-th turn: a target that
    is another name for a local is written as that local, whose contents it shares."""
    if not isinstance(s.iter, (ast.Tuple, ast.List)):
        return s.body
    e = s.iter.elts[i]
    pairs = [(s.target, e)]
    if isinstance(s.target, (ast.Tuple, ast.List)) and isinstance(e, (ast.Tuple, ast.List)) and len(s.target.elts) == len(e.elts):
        pairs = zip(s.target.elts, e.elts)
    stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    stored |= {a.arg for b in s.body for n in ast.walk(b) if isinstance(n, (ast.Lambda, ast.FunctionDef)) for a in ast.walk(n.args) if isinstance(a, ast.arg)}
    same = {t.id: x.id for t, x in pairs if isinstance(t, ast.Name) and isinstance(x, ast.Name) and not {t.id, x.id} & stored}
    if not same:
        return s.body

    class Names(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.copy_location(ast.Name(same[n.id], n.ctx), n) if n.id in same else n
    return [Names().visit(copy.deepcopy(b)) for b in s.body]


class _Turn(ast.stmt):
    """Synthetic statement: one turn of a loop over a literal sequence."""
    _fields = ()

    def __init__(self, target, term, body):
        super().__init__()
        self.target = target
        self.term = term
        self.body = body


class _Bind(ast.stmt):
    """Synthetic statement binding a loop target to a literal element."""
    _fields = ()

    def __init__(self, target, term):
        super().__init__()
        self.target = target
        self.term = term


_orig_stmt = Evaluator.stmt


def _stmt(self, s, st):
    if isinstance(s, _Bind):
        self._assign_elem(s.target, s.term, st)
        return
    _orig_stmt(self, s, st)


Evaluator.stmt = _stmt


class _FakeFunc:
    def __init__(self, module):
        self.module = module
        self.cls = None
        self.kind = 'function'


def _arg_names(args, call, skip):
    """Parameter -> name of the variable passed for it, where a plain variable is."""
    pos = [a.arg for a in args.posonlyargs + args.args][skip:]
    out = {}
    for p, a in zip(pos, call.args):
        if isinstance(a, ast.Name):
            out[p] = a.id
    for k in call.keywords:
        if k.arg and isinstance(k.value, ast.Name):
            out[k.arg] = k.value.id
    return out


def _stored(d, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(d))


def _filled(body):
    """Variables whose contents a piece of code changes in place."""
    out = set()
    for n in ast.walk(ast.Module(body=list(body), type_ignores=[])):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                and isinstance(n.func.value, ast.Name):
            out.add(n.func.value.id)
    return out


def _carried_defs(v, base, steps):
    """{placeholder: term} for the value a variable has when an element is reached:
    its initial value updated by every earlier element."""
    out = {}
    todo = dict(steps)
    while todo:
        ready = [k for k, (t, _) in todo.items() if not any(o != k and T.mentions(t, o) for o in todo)]
        if not ready:
            break
        for k in ready:
            t, init = todo.pop(k)
            if t == k:
                out[k] = init
                continue
            t = T.subst(t, out)
            bv, (b,) = T.close(v, t)
            out[k] = mk('carried', v, bv[1], base, T.subst(b, {k: mk('prev', bv[1])}), init)
    return out


def _search_only(body):
    """Statements that only look at something and may answer."""
    ok = False
    for b in body:
        if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1 and isinstance(b.body[0], ast.Return):
            ok = True
        elif not (isinstance(b, ast.Assign) and all(isinstance(t, ast.Name) for t in b.targets)):
            return False
    return ok


def _spread(kws):
    """f(**table): what is stored under known names are keyword arguments."""
    out, d = dict(kws), kws[0][1]
    del out['**']
    drop = []
    while True:
        if d[0] == 'store' and d[2][:2] == ('c', 'str') and d[2][2] not in out:
            out[d[2][2]] = d[3]
            drop.append(d[2])
            d = d[1]
        elif d[0] == 'copy':
            d = d[1]
        else:
            break
    if d[0] == 'dict' and all(k[:2] == ('c', 'str') and k[2] not in out for k, _ in d[1]):
        out.update((k[2], v) for k, v in d[1])
    else:
        for k in drop:
            d = T.mk_delkey(d, k)
        out['**'] = d
    return tuple(sorted(out.items()))


def _base(t):
    while t[0] == 'v':
        t = t[1]
    if t[0] == 'ite' and T.nleaves(t) <= 4:
        bs = {_base(l) for l, _ in T.leaves(t)}
        if len(bs) == 1:
            return next(iter(bs))
    return t


def _most(n):
    """How often an object may have changed."""
    return max(_most(n[1]), _most(n[2])) if isinstance(n, tuple) else n


def _questions(p, told=()):
    """What nullary operations defined once, each by a single expression, say about each other:
    (those that deny another, those that imply others)."""
    by = {}
    for f in p.all_functions():
        if f.cls is not None and f.kind == 'method':
            by.setdefault(f.name, []).append(f)
    for f in told:      # the law stands for the operation
        if f.cls is not None and [g.cls for g in by.get(f.name, ())] == [f.cls]:
            by[f.name] = [f]
    expr = {}
    for n, fs in by.items():
        body = [x for x in fs[0].node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(fs) == 1 and len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and len(fs[0].params()[0]) == 1 \
                and not fs[0].node.args.kwonlyargs:
            expr[n] = body[0].value

    def asked(e):
        ok = isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self' \
            and not e.args and not e.keywords
        return e.func.attr if ok and len(by.get(e.func.attr, ())) == 1 else None
    deny = {n: asked(e.operand) for n, e in expr.items() if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and asked(e.operand)}
    whole = {}
    for n, e in expr.items():
        whole.setdefault((ast.dump(e), by[n][0].cls), n)
    implies = {}
    for n, e in expr.items():
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            got = {whole.get((ast.dump(v), by[n][0].cls)) or asked(v) for v in e.values}
            implies[n] = {x for x in got if x and x != n}
    return deny, implies


def _versions(n):
    return _versions(n[1]) + _versions(n[2]) if isinstance(n, tuple) else [n]


def _next(n):
    return (n[0], _next(n[1]), _next(n[2])) if isinstance(n, tuple) else n + 1


def _depth(n):
    return 1 + max(_depth(n[1]), _depth(n[2])) if isinstance(n, tuple) else 0


def _fresh_container(t):
    return t[0] in CONTAINER_HEADS or (t[0] == 'op' and t[1] in ('dictmerge', 'delkey')) or (
        t[0] == 'ite' and all(_fresh_container(l) for l, _ in T.leaves(t))) or (
        t[0] == 'call' and t[1] in (mk('g', 'ext:collections.defaultdict'),))


def _table(t):
    return t[0] in ('copy', 'dict', 'store', 'dictc') or t[:2] == ('op', 'delkey')


def _boolish(e):
    if isinstance(e, ast.Compare):
        return True
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return True
    if isinstance(e, ast.BoolOp):
        return all(_boolish(x) for x in e.values)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
            'isinstance', 'hasattr', 'any', 'all', 'callable', 'bool', 'issubclass'):
        return True
    if isinstance(e, ast.Constant) and isinstance(e.value, bool):
        return True
    return False


def _as_load(t):
    import copy as _c
    n = _c.copy(t)
    n.ctx = ast.Load()
    return n


def _map_eff(eff, f):
    out = []
    for e in eff:
        out.append(_map_one(e, f))
    return out


def _map_one(e, f):
    if e[0] == 'if':
        return ('if', f(e[1]), tuple(_map_eff(e[2], f)), tuple(_map_eff(e[3], f)))
    if e[0] == 'for':
        return ('for', f(e[1]), e[2], tuple(_map_eff(e[3], f)))
    if e[0] == 'while':
        return ('while', f(e[1]), tuple(_map_eff(e[2], f)))
    out = [e[0]]
    for x in e[1:]:
        out.append(_map_any(x, f))
    return tuple(out)


def _map_any(x, f):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in T.HEADS:
            return f(x)
        return tuple(_map_any(y, f) for y in x)
    return x


def eff_terms(eff):
    """All terms occurring in an effect tree."""
    for e in eff:
        if e[0] == 'if':
            yield e[1]
            yield from eff_terms(e[2])
            yield from eff_terms(e[3])
        elif e[0] == 'for':
            yield e[1]
            yield from eff_terms(e[3])
        elif e[0] == 'while':
            yield e[1]
            yield from eff_terms(e[2])
        else:
            yield from _terms_any(e[1:])


def _terms_any(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in T.HEADS:
            yield x
        else:
            for y in x:
                yield from _terms_any(y)


def _close_eff(v, eff):
    h = 0
    for t in eff_terms(eff):
        h = max(h, T.height(t))
    h += 1

    def maxb(eff):
        m = 0
        for e in eff:
            if e[0] == 'for':
                m = max(m, e[2], maxb(e[3]))
            elif e[0] == 'if':
                m = max(m, maxb(e[2]), maxb(e[3]))
            elif e[0] == 'while':
                m = max(m, maxb(e[2]))
        return m
    h = max(h, maxb(eff) + 1)
    bv = mk('bv', h)
    return bv, tuple(_map_eff(eff, lambda t: T.subst(t, {v: bv})))


def show_eff(eff, ind=0):
    pad = '  ' * ind
    out = []
    for e in eff:
        if e[0] == 'if':
            out.append(pad + 'if %s:' % show(e[1]))
            out.append(show_eff(e[2], ind + 1))
            if e[3]:
                out.append(pad + 'else:')
                out.append(show_eff(e[3], ind + 1))
        elif e[0] == 'for':
            out.append(pad + 'for b%d in %s:' % (e[2], show(e[1])))
            out.append(show_eff(e[3], ind + 1))
        elif e[0] == 'while':
            out.append(pad + 'while %s:' % show(e[1]))
            out.append(show_eff(e[2], ind + 1))
        elif e[0] == 'set':
            out.append(pad + '%s.%s = %s' % (show(e[1]), e[2], show(e[3])))
        elif e[0] == 'setitem':
            out.append(pad + '%s[%s] = %s' % (show(e[1]), show(e[2]), show(e[3])))
        elif e[0] == 'call':
            out.append(pad + show(e[1]))
        elif e[0] == 'mut':
            out.append(pad + '%s.%s(%s)' % (show(e[1]), e[2], ', '.join(show(a) for a in e[3])))
        else:
            out.append(pad + e[0] + ' ' + ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in e[1:]))
    return '\n'.join(o for o in out if o)
