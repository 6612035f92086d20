"""Comparison of function summaries in canonical form.

`verdict(actual, law)` answers 'same', 'diff' or 'unknown':

* same     the canonical value graphs (and effect events) coincide;
* diff     they provably differ: on a feasible path of the merged decision
           diagram the two sides reach different canonical values, and both
           sides are inside the exactly modelled fragment, over names the
           analysed package defines;
* unknown  anything else (an idiom or construct outside the exact fragment).

Only 'diff' may become a report.
"""

from fractions import Fraction

from . import terms as T
from .terms import mk, mk_ite, TRUE, FALSE, NONE, ZERO, neg, sub, show, b_or, b_and, b_not

SKIP = mk('skip')

MAX_VISIT = 4000

# heads whose meaning the canonical form captures completely
EXACT = {'n', 'c', 'p', 'g', 'b', 'a', 'i', 'v', 'call', 'poly', 'max', 'ite', 'lt', 'eq0', 'eq',
         'isnone', 'truthy', 'in', 'isinst', 'any', 'is', 'sum', 'listc', 'setc', 'dictc',
         'maxover', 'unionover', 'list', 'tuple', 'dict', 'set', 'union', 'setdiff', 'copy', 'deepcopy',
         'lam', 'lp', 'ov', 'bv', 'pow', 'inf', 'end', 'raise', 'cat', 'sorted', 'values', 'items',
         'super', 'supera', 'inter', 'len', 'range', 'toset', 'tolist', 'prodover', 'ev', 'each', 'skip',
         'op', 'star', 'store', 'upd', 'fold', 'first', 'loop', 'exc', 'flat', 'wfold', 'slice',
         'partial', 'zip', 'ctx', 'fstr', 'yieldv', 'evs', 'carried', 'prev', 'upto'}
# constructs that several idioms can express: a difference counts only when
# both sides use the same number of each
SHAPE = {'listc', 'setc', 'dictc', 'maxover', 'unionover', 'fold', 'first', 'store', 'upd', 'cat', 'op',
         'loop', 'exc', 'opaque', 'flat', 'wfold', 'slice', 'prodover', 'union', 'setdiff', 'inter',
         'lam', 'sorted', 'tolist', 'toset', 'copy', 'partial', 'zip', 'ctx', 'any', 'sum', 'fstr', 'star',
         'len', 'range', 'dict', 'list', 'set', 'deepcopy', 'in', 'isinst', 'exc', 'yieldv', 'values', 'items', 'carried'}


LOOPS = {'fold', 'wfold', 'carried', 'first'}
AGGREGATES = {'sum', 'any', 'maxover', 'len', 'prodover'}


def _constructs(t):
    """Outermost multi-idiom constructs of a term."""
    out = set()

    def go(x):
        if x[0] in SHAPE:
            out.add(x)
            return
        for y in T.children(x):
            go(y)
    go(t)
    return out


def _names(t):
    """The attributes a term looks at."""
    return {x[2] for x in T.walk(t) if x[0] == 'a'}


def _itself(ev, path):
    """An attribute given the value it has."""
    if ev[0] != 'ev' or ev[1] != 'set' or not isinstance(ev[4], T.Tm):
        return False
    x = ev[4]
    if T.numericish(x) and x[0] == 'poly':
        y = neg(x)
        if {(mk('lt', x), False), (mk('lt', y), False)} <= set(path):
            x = y       # both nothing
    return x[0] in ('a', 'v') and strip_versions(x) == mk('a', strip_versions(ev[2]), ev[3])


def _tests(c):
    """The questions a condition is made of."""
    if c[0] == 'ite':
        return {c[1]} | _tests(c[2]) | _tests(c[3])
    return set() if c in (TRUE, FALSE) else {c}


def _outside(t):
    """The parts of a term that are not inside a multi-idiom construct."""
    out = set()

    def go(x):
        if x[0] in SHAPE:
            return
        out.add(x)
        for y in T.children(x):
            go(y)
    go(t)
    return out


# ---------------------------------------------------------------- events

def _lift_ev(kind, parts):
    n = 1
    for x in parts:
        if isinstance(x, T.Tm):
            n *= T.nleaves(x)
    if n > 32:
        return mk('ev', kind, *parts)
    idx = [i for i, x in enumerate(parts) if isinstance(x, T.Tm)]

    def build(*xs):
        p = list(parts)
        for i, x in zip(idx, xs):
            p[i] = x
        return mk('ev', kind, *p)
    return T.lift(build, *[parts[i] for i in idx])


def prim(e):
    k = e[0]
    if k == 'call':
        t = e[1]
        if t[0] == 'ite':
            return T.lift(lambda x: mk('ev', 'call', x), t) if T.nleaves(t) <= 32 else mk('ev', 'call', t)
        return mk('ev', 'call', t)
    if k in ('raise', 'with'):
        return None
    if k in ('mut', 'setitem', 'set', 'delitem', 'del') and isinstance(e[1], T.Tm) and T.nleaves(e[1]) <= 32:
        # which object changes does not depend on what happened to it before
        e = (k, T.lift(_unversioned, e[1])) + tuple(e[2:])
    if k in ('set', 'setitem') and isinstance(e[3], T.Tm) and T.nleaves(e[3]) <= 32:
        # what is stored is the object, whatever happened to it
        e = tuple(e[:3]) + (T.lift(_unversioned, e[3]),) + tuple(e[4:])
    if k == 'mut':
        args = e[3]
        kw = e[4]
        parts = [e[1], e[2]] + list(args) + [v for _, v in kw]
        na = len(args)
        names = [n for n, _ in kw]

        def build(*xs):
            return mk('ev', 'mut', xs[0], e[2], tuple(xs[1:1 + na]), tuple(zip(names, xs[1 + na:])))
        terms = [e[1]] + list(args) + [v for _, v in kw]
        n = 1
        for x in terms:
            n *= T.nleaves(x)
        return T.lift(build, *terms) if n <= 32 else build(*terms)
    return _lift_ev(k, list(e[1:]))


def assume(t, c, val, budget=[0]):
    """Rebuild t knowing condition atom c has value val."""
    def f(x):
        if x[0] in T._COND_HEADS:
            i = T._implied(x, c, val)
            if i is not None:
                return TRUE if i else FALSE
        return None
    return T.rebuild(t, f)


def assume_dd(t, c, val):
    """Knowing diagram c is val: only single-path diagrams are used."""
    if c[0] in T._COND_HEADS:
        return assume(t, c, val)
    if c[0] == 'ite':
        want = TRUE if val else FALSE
        paths = []

        def go(d, p):
            v = T._top(d)
            if v is None:
                if d == want:
                    paths.append(p)
                return
            for b in (True, False):
                go(T.cof(d, v, b), p + ((v, b),))
        go(c, ())
        if len(paths) == 1:
            for a, v in paths[0]:
                t = assume(t, a, v)
    return t


def flatten(eff):
    """Effect tree -> list of diagrams over event leaves, in program order."""
    out = []
    for e in eff:
        k = e[0]
        if k == 'if':
            c = e[1]
            for d in flatten(e[2]):
                d = mk_ite(c, assume_dd(d, c, True), SKIP)
                if d != SKIP:
                    out.append(d)
            for d in flatten(e[3]):
                d = mk_ite(c, SKIP, assume_dd(d, c, False))
                if d != SKIP:
                    out.append(d)
        elif k == 'for':
            for d in flatten(e[3]):
                out.extend(_loop(e[1], e[2], d))
        elif k == 'while':
            body = flatten(e[2])
            # a loop whose condition fails at the start does nothing
            out.append(T.lift(lambda c: SKIP if c == FALSE else mk('loop', c, tuple(body)), e[1]) if e[1][0] == 'ite' and T.nleaves(e[1]) <= 8
                       else mk('loop', e[1], tuple(body)))
        else:
            d = prim(e)
            if d is not None:
                out.append(d)
    return out


def _conds(d, acc):
    if d[0] == 'ite':
        acc.append(d[1])
        _conds(d[2], acc)
        _conds(d[3], acc)


def _loop(it, h, d):
    if it[0] == 'ite' and T.nleaves(it) <= 6:
        hi, lo = _loop(it[2], h, d), _loop(it[3], h, d)
        return [mk_ite(it[1], x, SKIP) for x in hi] + [mk_ite(it[1], SKIP, x) for x in lo]
    bv = mk('bv', h)
    cs = []
    _conds(d, cs)
    if it[0] == 'upto':
        _conds(it[3], cs)
        for c in cs:
            if not T.mentions(c, mk('bv', it[1])) and not T.mentions(c, bv):
                parts = []
                for v in (True, False):
                    for x in _loop(T.mk_upto(it[1], it[2], T.cof(it[3], c, v)), h, T.cof(d, c, v)):
                        x = mk_ite(c, x, SKIP) if v else mk_ite(c, SKIP, x)
                        if x != SKIP:
                            parts.append(x)
                return parts
    for c in cs:
        if not T.mentions(c, bv):
            hi, lo = _loop(it, h, T.cof(d, c, True)), _loop(it, h, T.cof(d, c, False))
            return [x for x in [mk_ite(c, x, SKIP) for x in hi] + [mk_ite(c, SKIP, x) for x in lo] if x != SKIP]
    out = []
    for leaf, g in leaf_guards(d):
        v = T.fresh()
        leaf2, g2 = T.subst(leaf, {bv: v}), T.subst(g, {bv: v})
        b, (leaf2, g2) = T.close(v, leaf2, g2)
        out.append(mk('each', b[1], it, g2, leaf2))
    return out


def leaf_guards(d):
    """[(leaf, guard diagram)] of an event diagram, SKIP left out."""
    order, acc = [], {}
    for l, _ in T.leaves(d):
        if l != SKIP and l not in acc:
            acc[l] = _guard_of(d, l)
            order.append(l)
    return [(l, acc[l]) for l in order]


def _guard_of(d, l):
    if d[0] == 'ite':
        return mk_ite(d[1], _guard_of(d[2], l), _guard_of(d[3], l))
    return TRUE if d == l else FALSE


def norm_versions(t):
    """Any later version counts as 'after mutation'."""
    def f(x):
        if x[0] == 'v':
            y = x
            while y[0] == 'v':
                y = y[1]
            return mk('v', norm_versions(y), 1)
        return None
    return T.rebuild(t, f)


class Facts:
    """Canonical observable content of a summary."""

    def __init__(self, summ, versions=True, idle=None, iterator=False, maker=False):
        self.needs = list(dict.fromkeys(getattr(summ, 'needs', ())))
        nv0 = norm_versions if versions else (lambda t: strip_versions(t))
        nv = nv0 if idle is None else (lambda t: drop_idle(nv0(t), idle))
        # what is returned is the object, whatever happened to it (that is in the events)
        self.ret = T.lift(_unversioned, nv(summ.ret)) if T.nleaves(summ.ret) <= 64 else nv(summ.ret)
        self.order = []         # as they come, before those in exclusive branches are put together
        self.stores = []        # plain stores, where they come
        self.events = state_events(summ.eff, summ.state.heap, (), nv, self.order, self.stores)     # (leaf, guard) in order
        self.events = _asked(self.ret, self.events)
        if maker and T.nleaves(self.ret) <= 32 and any(l[0] == 'raise' for l, _ in T.leaves(self.ret)):
            # no one gets to see the object if its making fails
            made = T.lift(lambda x: FALSE if x[0] == 'raise' else TRUE, self.ret)
            self.events = [(l, b_and(g, made) if l[0] == 'ev' and l[1] == 'set' and l[2] == T.mk('p', 'self') else g) for l, g in self.events]
            self.events = [(l, g) for l, g in self.events if g != FALSE]
        if iterator and self.ret != NONE and self.ret[0] not in ('ite', 'raise'):
            # an iterator over a collection yields its elements, one by one
            base, el, c = T.iter_source(self.ret, ordered=True)
            v = T.fresh()
            bv, (b, c) = T.close(v, mk('ev', 'yield', el(v)), c(v))
            self.events.append((mk('each', bv[1], base, c, b), TRUE))
            self.ret = NONE


def _asked(ret, events):
    """Calls of a function that was handed in, made for a value that shows up
    elsewhere: how often it is asked is not observed."""
    def what(e):
        while e[0] == 'each':
            e = e[4]
        return e[2] if e[0] == 'ev' and e[1] == 'call' and e[2][0] == 'call' and e[2][1][0] == 'p' else None
    asked = [what(e) for e, _ in events]
    if not any(asked):
        return events
    rest = {x[1] for t in [ret] + [e for (e, _), q in zip(events, asked) if q is None] for x in T.walk(t) if x[0] == 'call'}
    return [e for e, q in zip(events, asked) if q is None or q[1] not in rest]


def _unversioned(x):
    while x[0] == 'v':
        x = x[1]
    return x


def drop_idle(t, idle):
    """Arguments equal to the constant defaults of what is called are left out."""
    def f(x):
        if x[0] == 'call' and x[3]:
            d = idle(x[1])
            if d and any(d.get(k) == v for k, v in x[3]):
                return drop_idle(mk('call', x[1], x[2], tuple((k, v) for k, v in x[3] if d.get(k) != v)), idle)
        return None
    return T.rebuild(t, f)


def state_events(eff, heap, own=(), nv=None, seq=None, stores=None):
    """[(event, guard)] of an effect tree and the final heap; `own`: unknowns
    that stand for parameters of the function itself."""
    nv = nv or norm_versions
    own = set(own)
    dds = flatten(eff)
    final, drop = [], set()
    for (o, attr), v in heap.items():
        if T.contains(o, lambda x: x[0] == 'fv' and x not in own):
            continue
        drop.add((o, attr))
        final.append(T.lift(lambda x: SKIP if x == mk('a', o, attr) else mk('ev', 'set', o, attr, _unversioned(x)), v)
                     if T.nleaves(v) <= 64 else mk('ev', 'set', o, attr, v))
    evs = []

    def keep(x):
        if x[0] == 'ite':
            return mk_ite(x[1], keep(x[2]), keep(x[3]))
        if x[0] == 'ev' and x[1] == 'set' and (x[2], x[3]) in drop:
            return SKIP
        return x
    for d in dds:
        if stores is not None and d[0] in ('ev', 'ite'):
            stores += [(l, g) for l, g in leaf_guards(nv(d)) if l[0] == 'ev' and l[1] == 'set']
        d = keep(d)
        if d != SKIP:
            evs.append(d)
    evs += [d for d in final if d != SKIP]
    out = []
    for d in evs:
        for l, g in leaf_guards(nv(d)):
            if seq is not None:
                seq.append((l, g))
            for i, (l2, g2) in enumerate(out):
                if l2 == l and b_and(g, g2) == FALSE:
                    out[i] = (l, b_or(g, g2))
                    break
            else:
                out.append((l, g))
    return out


def strip_versions(t):
    def f(x):
        if x[0] == 'v':
            y = x
            while y[0] == 'v':
                y = y[1]
            return strip_versions(y)
        return None
    return T.rebuild(t, f)


# ---------------------------------------------------------------- feasibility

def _lin(p):
    return {m: c for m, c in T.to_poly(p).items()}


def _operand(d, x):
    """Is x itself a term of the arithmetic d?"""
    return x != NONE and any(y == x or (y[0] == 'max' and any(_operand(z, x) for z in y[1]))
                             for m in T.to_poly(d) for y, _ in m)


def _tests(t, seen=None):
    """Conditions a diagram branches on."""
    seen = set() if seen is None else seen
    while t[0] == 'ite':
        if t in seen:
            return
        seen.add(t)
        yield t[1]
        yield from _tests(t[2], seen)
        t = t[3]
    if t[0] == 'isnone':
        yield t


def _casts(path):
    """Converting what already is of the type changes nothing."""
    return {mk('call', c[2], (c[1],), ()): c[1] for c, v in path
            if c[0] == 'isinst' and v and c[2] in (mk('b', 'int'), mk('b', 'float'), mk('b', 'str'))}


def _forced(path):
    """Figures the orderings on a path make equal to others: atom -> its value."""
    out = {}
    for c, v in path:
        if (c[0] == 'lt' and not v) or (c[0] == 'eq0' and v):
            d = T.subst(c[1], out) if out else c[1]
            p = T.to_poly(d)
            if c[0] == 'lt' and feasible(path, [({m: -k for m, k in p.items()}, True)]):
                continue
            for m, k in sorted(((m, k) for m, k in p.items() if m), key=lambda x: T.key(x[0][0][0])):
                if len(m) == 1 and m[0][1] == 1 and k in (1, -1):
                    x = m[0][0]
                    rest = T._add2(d, T.mul(T.num(-k), x))
                    if not T.mentions(rest, x):
                        out[x] = neg(rest) if k == 1 else rest
                        break
    return out


POSITIVE = {'precision'}    # figures that are positive wherever they mean anything: the unit amounts are rounded to


def feasible(path, extra=()):
    """Is a conjunction of condition literals possible (linear, else assumed)?"""
    path = list(path)
    casts = _casts(path)
    if casts:
        path = [(T.subst(c, casts), v) for c, v in path]
        if any(c in (TRUE, FALSE) and (c == TRUE) != v for c, v in path):
            return False
        path = [(c, v) for c, v in path if c[0] in T._COND_HEADS]
    one = {c[2]: c[1] for c, v in path if v and c[0] == 'is' and c[1] != c[2]}
    if one:
        path = [(T.subst(c, one), v) for c, v in path if not (c[0] == 'is' and v)]
        if any(c in (TRUE, FALSE) and (c == TRUE) != v for c, v in path):
            return False
        path = [(c, v) for c, v in path if c[0] in T._COND_HEADS]
    for i, (c, v) in enumerate(path):
        for d, w in path[i + 1:]:
            if one and c == d and v != w:
                return False
            r = T._implied(d, c, v)
            if r is not None and r != w:
                return False
            r = T._implied(c, d, w)
            if r is not None and r != v:
                return False
    cons, apart = [], []     # (lin, strict): lin < 0 or lin <= 0
    for c, v in path:
        if c[0] == 'lt':
            cons.append((_lin(c[1]), True) if v else (_lin(neg(c[1])), False))
        elif c[0] == 'eq0' and v:
            cons.append((_lin(c[1]), False))
            cons.append((_lin(neg(c[1])), False))
        elif c[0] == 'eq0' and len(apart) < 4:
            apart.append(c[1])      # not zero: below or above
    if cons and any(c[0] == 'truthy' for c, _ in path):
        # what is ordered against a number is a number: true when it is not zero
        ordered = {m[0][0] for c, _ in path if c[0] == 'lt' for m in T.to_poly(c[1]) if len(m) == 1 and m[0][1] == 1}
        for c, v in path:
            if c[0] == 'truthy' and c[1] in ordered:
                if not v:
                    cons += [(_lin(c[1]), False), (_lin(neg(c[1])), False)]
                elif len(apart) < 4:
                    apart.append(c[1])
    cons += list(extra)
    for x in {m[0][0] for k, _ in cons for m in k if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'a' and m[0][0][2] in POSITIVE}:
        cons.append((_lin(neg(x)), True))

    def split(i, cons):
        if not _fm(cons):
            return False
        return i == len(apart) or split(i + 1, cons + [(_lin(apart[i]), True)]) or split(i + 1, cons + [(_lin(neg(apart[i])), True)])
    return split(0, cons)


_BINDERS = {'sum', 'any', 'listc', 'setc', 'dictc', 'maxover', 'unionover', 'fold', 'first', 'prodover', 'upto'}


def _closed(c):
    """A condition without unknowns of an enclosing binder or further diagrams."""
    used, bound = set(), set()
    for y in T.walk(c):
        if y[0] in ('fv', 'ite'):
            return False
        if y[0] in ('bv', 'prev'):
            used.add(y[1])
        elif y[0] in _BINDERS:
            bound.add(y[1])
        elif y[0] == 'carried':
            bound.add(y[2])
    return used <= bound


def _possible(path, lin=None, depth=0, pair=None):
    """Some way of deciding the conditions buried in the path's own conditions
    leaves it feasible (they were treated as plain atoms so far)."""
    def isb(x):
        return x[0] == 'ite' and _closed(x[1])
    if not any(T.contains(c, isb) for c, _ in path):
        return _apart(path, lin, pair)
    if depth > 6:
        return False
    new, known = [], dict(path)
    for c, v in path:
        if T.contains(c, isb):
            c2 = c
            for d, w in path:
                if d != c and d[0] in T._COND_HEADS:
                    inner = T.rebuild(c2, lambda x: None if x is c2 else _known(x, d, w))
                    c2 = inner
            if c2 == TRUE or c2 == FALSE:
                if (c2 == TRUE) != v:
                    return False
                continue
            if c2[0] not in T._COND_HEADS:
                # became a diagram: its own top condition is decided next
                v2 = T._top(c2)
                if v2 is None:
                    return False
                return any(_possible(_drop(path, c) + [(v2, b)] + _lits(T.cof(c2, v2, b), v), lin, depth + 1, pair) for b in (True, False)
                           if _lits(T.cof(c2, v2, b), v) is not None)
            new.append((c2, v))
        else:
            new.append((c, v))
    for c, _ in new:
        for x in T.walk(c):
            if isb(x):
                w = x[1]
                if w in known:
                    return False
                return any(_possible(new + [(w, b)], lin, depth + 1, pair) for b in (True, False))
    return _apart(new, lin, pair)


def _apart(path, lin, pair=None):
    if lin is None:
        return feasible(path)
    if not feasible(path, [(lin, True)]) and not feasible(path, [({m: -c for m, c in lin.items()}, True)]):
        return False
    same = _forced(path) if sum(1 for c, _ in path if c[0] in ('lt', 'eq0')) <= 12 else None
    return not same or T.subst(pair[0], same) != T.subst(pair[1], same)


def _drop(path, c):
    return [(d, w) for d, w in path if d != c]


def _lits(d, v):
    if d in (TRUE, FALSE):
        return [] if (d == TRUE) == v else None
    return [(d, v)] if d[0] in T._COND_HEADS else None


def _known(x, d, w):
    if x[0] in T._COND_HEADS:
        i = T._implied(x, d, w)
        if i is not None:
            return TRUE if i else FALSE
    return None


def _fm(cons):
    """Fourier-Motzkin: is the conjunction of linear constraints satisfiable?"""
    cons = [(dict(c), s) for c, s in cons]
    vars_ = set()
    for c, _ in cons:
        vars_ |= {m for m in c if m != ()}
    for x in sorted(vars_, key=lambda m: T.key(m)):
        pos, neg_, rest = [], [], []
        for c, s in cons:
            k = c.get(x, 0)
            (pos if k > 0 else neg_ if k < 0 else rest).append((c, s))
        if len(pos) * len(neg_) > 400:
            return True
        for c1, s1 in pos:
            for c2, s2 in neg_:
                k1, k2 = c1[x], -c2[x]
                d = {}
                for m in set(c1) | set(c2):
                    if m == x:
                        continue
                    q = c1.get(m, 0) * k2 + c2.get(m, 0) * k1
                    if q:
                        d[m] = q
                rest.append((d, s1 or s2))
        cons = rest
    for c, s in cons:
        k = c.get((), Fraction(0))
        if k > 0 or (s and k == 0):
            return False
    return True


# ---------------------------------------------------------------- difference

class Vocab:
    def __init__(self, names, quals):
        self.names = set(names)
        self.quals = set(quals)
        self.sigs = lambda name: []     # parameter lists of the package's methods of a name


def shape(t):
    d = {}
    for x in T.walk(t):
        if x[0] in SHAPE:
            d[x[0]] = d.get(x[0], 0) + 1
    return d


def _place_like(t):
    while t[0] == 'a':
        t = t[1]
    return t[0] == 'p'


class Differ:
    def __init__(self, vocab):
        self.v = vocab
        self.visits = 0
        self.roots = None
        self.nopen = 0
        self.why = None
        self.alts = None        # the two diagrams whose leaves are being compared

    # ---- exactness
    def exact(self, t):
        for x in T.walk(t):
            h = x[0]
            if h not in EXACT:
                return False
            if h == 'a' and x[2] not in self.v.names:
                return False
            if h == 'g' and not (x[1].startswith('ext:') or x[1].startswith('mod:')):
                if x[1].split(':')[-1] not in self.v.names:
                    return False
            if h == 'g' and x[1].startswith('ext:') and x[1].split('.')[-1] not in self.v.names:
                return False
            if h == 'b' and x[1] not in self.v.names:
                return False
            if h == 'p' and False:
                return False
        return True

    def note(self, a, b, path, msg=''):
        if self.why is None:
            self.why = (a, b, tuple(path), msg)

    def _settles(self, path):
        """Conditions about the outcome of a general loop that only one side has
        (the other may say the same in another way) settle nothing."""
        loops = {x for c, _ in path for x in T.walk(c) if x[0] in LOOPS}
        if not loops:
            return True
        mine = [{x for x in T.walk(r) if x[0] in LOOPS} for r in self.roots]
        if not loops & (mine[0] ^ mine[1]):
            return True
        return len(mine[0] - mine[1]) == len(mine[1] - mine[0])

    # ---- comparison of two terms
    def cmp(self, a, b, path=()):
        if a is b or a == b:
            return 'same'
        if self.roots is None:
            self.roots = (a, b)
        self.visits += 1
        if self.visits > MAX_VISIT:
            return 'unknown'
        if a[0] == 'ite' or b[0] == 'ite':
            if self.alts is None:
                self.alts = (a, b)
                try:
                    return self._cmp_dd(a, b, path)
                finally:
                    self.alts = None
            return self._cmp_dd(a, b, path)
        if a[0] not in EXACT or b[0] not in EXACT:
            return 'unknown'
        alts, self.alts = self.alts, None
        try:
            r = self._cmp1(a, b, path)
        finally:
            self.alts = alts
        if r == 'unknown' and alts is not None and self._other_choice(a, b, alts, path):
            self.why = None
            self.note(a, b, path, 'the other alternative')
            return 'diff'
        return r

    def _other_choice(self, a, b, alts, path):
        """Both sides choose between the same alternatives, by conditions about the same things,
        and choose differently here."""
        if getattr(self.v, 'precisely', False) or a[0] in ('ev', 'each', 'evs', 'loop', 'raise') or not (self.exact(a) and self.exact(b)):
            return False
        if max(T.nleaves(x) for x in alts) > 64:
            return False
        if not all({a, b} <= {l for l, _ in T.leaves(x)} for x in alts):
            return False
        about = []
        for x in alts:
            about.append([(c, {y for y in T.walk(c) if y[0] in ('a', 'p', 'i', 'sum', 'call', 'bv', 'ov', 'maxover', 'any')}) for c in set(_tests(x))])
        for here, there in (about, about[::-1]):
            known = {c for c, _ in there}
            subjects = set().union(*[s for _, s in there]) if there else set()
            if any(c not in known and not s <= subjects for c, s in here):
                return False
        return True

    def _cmp1(self, a, b, path):
        if a[0] in T._COND_HEADS and b[0] in T._COND_HEADS or (
                a in (TRUE, FALSE) and b[0] in T._COND_HEADS) or (b in (TRUE, FALSE) and a[0] in T._COND_HEADS):
            if not (a[0] == b[0] and a[0] in ('any', 'in', 'isinst', 'truthy', 'eq', 'isnone', 'exc')):
                return self._cmp_dd(a, b, path)
        r = self._cmp_leaf(a, b, path)
        if r == 'diff' and path and a[0] not in ('ev', 'each', 'evs', 'raise', 'loop') and self._tied(a, b, path):
            self.why = None
            return 'same'
        if r == 'diff':
            casts = _casts(path)
            if casts and T.subst(a, casts) == T.subst(b, casts):
                self.why = None
                return 'same'
            same = _forced(path) if sum(1 for c, _ in path if c[0] in ('lt', 'eq0')) <= 12 else None
            if same and T.subst(a, same) == T.subst(b, same):
                self.why = None
                return 'same'
            for c, v in path:
                if c[0] == 'isnone' and v and c[1] != NONE and (T.mentions(a, c[1]) or T.mentions(b, c[1])) and \
                        T.subst(a, {c[1]: NONE}) == T.subst(b, {c[1]: NONE}):
                    self.why = None
                    return 'same'
        return r

    def _tied(self, a, b, path):
        """Do the ordering conditions on this path force a == b?"""
        if not (T.numericish(a) and T.numericish(b)):
            return False
        try:
            lin = _lin(T._add2(a, neg(b)))
        except Exception:
            return False
        return not feasible(path, [(lin, True)]) and not feasible(path, [({m: -c for m, c in lin.items()}, True)])

    def _cmp_dd(self, a, b, path):
        tops = [T._top(x) for x in (a, b)]
        tops = [t for t in tops if t is not None]
        v = min(tops, key=T.key)
        v = self._none_first(v, a, b)
        # an ordering of what is None has no outcome: both count, and nothing
        # that differs for one only is a difference
        if v[0] in ('lt', 'eq0') and any(c[0] == 'isnone' and w and _operand(v[1], c[1]) for c, w in path):
            rs = [self.cmp(T.cof(a, v, val), T.cof(b, v, val), path) for val in (True, False)]
            if rs == ['diff', 'diff']:
                return 'diff'
            self.why = None
            return 'same' if 'same' in rs else 'unknown'
        # different-but-corresponding conditions (same kind, non-arithmetic)
        res = 'same'
        for val in (True, False):
            p2 = path + ((v, val),)
            if not feasible(p2):
                continue
            r = self.cmp(T.cof(a, v, val), T.cof(b, v, val), p2)
            if r == 'diff':
                # the deciding condition must itself be exact on both sides
                if self._path_ok(a, b, p2):
                    return 'diff'
                self.why = None
                return 'unknown'
            if r == 'unknown':
                res = 'unknown'
        return res

    def _none_first(self, v, a, b):
        """Whether a figure is there at all is decided before how it compares."""
        if v[0] not in ('lt', 'eq0'):
            return v
        best = None
        for t in (a, b):
            for c in _tests(t):
                if c[0] == 'isnone' and _operand(v[1], c[1]) and (best is None or T.key(c) < T.key(best)):
                    best = c
        return v if best is None else best

    def _path_ok(self, a, b, path):
        if not all(self.exact(c) for c, _ in path):
            return False
        if not self._settles(path):
            return False
        lin = pair = None
        if self.why is not None:
            x, y, p = self.why[:3]
            if isinstance(x, T.Tm) and isinstance(y, T.Tm) and T.numericish(x) and T.numericish(y) and T._arith(x) and T._arith(y) \
                    and x[0] not in ('ev', 'each', 'evs', 'raise', 'loop', 'tuple') and y[0] not in ('ev', 'each', 'evs', 'raise', 'loop', 'tuple'):
                path = p if len(p) > len(path) else path
                lin, pair = _lin(T._add2(x, neg(y))), (x, y)
        return _possible(path, lin, 0, pair)

    def _cmp_leaf(self, a, b, path):
        ka, kb = a[0], b[0]
        if ka == 'raise' or kb == 'raise' or a in (TRUE, FALSE) and b in (TRUE, FALSE):
            if ka == kb == 'raise':
                return self._structural(a, b, path)
            return self._final(a, b, path)
        num = T.numericish(a) and T.numericish(b) and T._arith(a) and T._arith(b) and ka not in ('ev', 'each', 'loop', 'tuple') \
            and kb not in ('ev', 'each', 'loop', 'tuple')
        if num and (ka in ('poly', 'n', 'max', 'sum') or kb in ('poly', 'n', 'max', 'sum')):
            return self._cmp_num(a, b, path)
        if getattr(self.v, 'precisely', False) and _amount_of(a) != _amount_of(b) and any(x[0] == 'call' and x[1] == T._CONV for x in (a, b)) and all(
                x[0] == 'call' and x[1] == T._CONV or T.numericish(x) and T._arith(x) for x in (a, b)):
            lin = _lin(T._amount(T._add2(a, neg(b))))
            if not feasible(path, [(lin, True)]) and not feasible(path, [({m: -c for m, c in lin.items()}, True)]):
                return 'same'
        return self._structural(a, b, path)

    def _cmp_num(self, a, b, path):
        d = T._add2(a, neg(b))
        if d == ZERO:
            return 'same'
        lin = _lin(T._amount(d) if getattr(self.v, 'precisely', False) and _amount_of(a) != _amount_of(b) else d)
        lt0 = feasible(path, [(lin, True)])
        gt0 = feasible(path, [({m: -c for m, c in lin.items()}, True)])
        if not lt0 and not gt0:
            return 'same'
        # a total over the distinct values of a figure instead of over all of them
        if self.exact(a) and self.exact(b):
            a2, b2 = T.undup(a), T.undup(b)
            keep = self.why
            alike = (a2, b2) != (a, b) and (a2 == b2 or self.cmp(a2, b2, path) == 'same')
            self.why = keep
            if alike:
                self.note(a, b, path, 'equal values count once')
                return 'diff'
        r = self._cmp_sums(a, b, path)
        if r is not None:
            return r
        # pair up unmatched composite atoms: their own comparison decides
        pa, pb = T.to_poly(a), T.to_poly(b)
        oa = [(m, c) for m, c in pa.items() if pb.get(m) != c]
        ob = [(m, c) for m, c in pb.items() if pa.get(m) != c]
        if len(oa) == len(ob) == 1 and oa[0][1] == ob[0][1] and len(oa[0][0]) == len(ob[0][0]):
            ma, mb = dict(oa[0][0]), dict(ob[0][0])
            ua = [(x, e) for x, e in ma.items() if mb.get(x) != e]
            ub = [(x, e) for x, e in mb.items() if ma.get(x) != e]
            if len(ua) == len(ub) == 1 and ua[0][1] == ub[0][1] and ua[0][0][0] == ub[0][0][0] and \
                    ua[0][0][0] not in ('poly',):
                x, y = ua[0][0], ub[0][0]
                if x[0] == 'max':
                    return self._cmp_max(x, y, path)
                if x[0] == 'ite':
                    return self.cmp(x, y, path)
                return self._structural(x, y, path)
        return self._final(a, b, path)

    def _cmp_sums(self, a, b, path):
        """Sums over one collection are one sum: compare what each element adds.

        None unless everything else on the two sides already agrees."""
        ga, gb = {}, {}
        v = mk('ov', self.nopen + 1)
        for t, g in ((a, ga), (b, gb)):
            for m, c in T.to_poly(t).items():
                over = [x for x, e in m if x[0] == 'sum' and e == 1]
                if len(over) == 1:
                    s = over[0]
                    k = (s[2], tuple((x, e) for x, e in m if x is not s))
                    body = T.subst(s[3], {mk('bv', s[1]): v})
                else:
                    k, body = (None, m), T.num(1)
                g[k] = T.add(g.get(k, ZERO), T.mul(T.num(c), body))
        ks = [k for k in list(ga) + [k for k in gb if k not in ga] if ga.get(k, ZERO) != gb.get(k, ZERO)]
        if not ks:
            return 'same'
        if len(ks) > 1 or ks[0][0] is None or ks[0] not in ga or ks[0] not in gb:
            return None
        self.nopen += 1
        r = self.cmp(ga[ks[0]], gb[ks[0]], path)
        return r

    def _cmp_max(self, x, y, path):
        sx, sy = set(x[1]), set(y[1])
        ux, uy = sx - sy, sy - sx
        if len(ux) == len(uy) == 1:
            # max(u, rest) vs max(w, rest): compare the odd ones out
            return self.cmp(next(iter(ux)), next(iter(uy)), path)
        if len(sx) == len(sy) == 2 and len(ux) == len(uy) == 2:
            (p, q), (r, s) = sorted(sx, key=T.key), sorted(sy, key=T.key)
            if neg(p) == q and neg(r) == s:     # magnitudes
                got = {self.cmp(p, r, path), self.cmp(p, s, path)}
                if 'same' in got:
                    return 'same'
                return 'diff' if got == {'diff'} else 'unknown'
        return self._final(x, y, path)

    def _final(self, a, b, path):
        """Different canonical forms without a pairing: need exactness and equal shapes.

        A condition buried inside (too large to lift) is decided first."""
        v = self._buried(a, b)
        if v is not None:
            res = 'same'
            for val in (True, False):
                p2 = path + ((v, val),)
                if not feasible(p2):
                    continue
                r = self.cmp(assume(a, v, val), assume(b, v, val), p2)
                if r == 'diff':
                    if self._path_ok(a, b, p2):
                        return 'diff'
                    self.why = None
                    return 'unknown'
                if r == 'unknown':
                    res = r
            return res
        return self._final0(a, b, path)

    def _buried(self, a, b):
        best = None
        for t in (a, b):
            for x in T.walk(t):
                if x[0] == 'ite' and _closed(x[1]):
                    if best is None or T.key(x[1]) < T.key(best):
                        best = x[1]
        return best

    def _final0(self, a, b, path):
        if SKIP in (a, b) and _itself(b if a == SKIP else a, path):
            return 'unknown'            # given the value it has
        if SKIP in (a, b) and a[0] != b[0] and self.exact(a) and self.exact(b):
            self.note(a, b, path)       # happens on one side only
            return 'diff'
        if self.exact(a) and self.exact(b) and (shape(a) == shape(b) or NONE in (a, b) and self._there(b if a == NONE else a)):
            self.note(a, b, path)
            return 'diff'
        if (a[:2] == ('op', 'dictmerge') or b[:2] == ('op', 'dictmerge')) and self.exact(a) and self.exact(b) and self._layer_missing(a, b):
            self.note(a, b, path, 'entries put in on one side only')
            return 'diff'
        if (a[0] == 'store' and a[1] == b or b[0] == 'store' and b[1] == a) and self.exact(a) and self.exact(b) and b[0] != a[0]:
            self.note(a, b, path, 'an entry put in on one side only')
            return 'diff'
        if 'sorted' in (a[0], b[0]) and (a[0] == 'sorted' and a[1] == b or b[0] == 'sorted' and b[1] == a) and \
                (a[0] in ('a', 'i', 'copy') or b[0] in ('a', 'i', 'copy')) and self.exact(a) and self.exact(b):
            self.note(a, b, path, 'put in order on one side only')
            return 'diff'
        if {a[0], b[0]} == {'sorted', 'tolist'} and a[1] == b[1] and self.exact(a) and self.exact(b):
            self.note(a, b, path, 'put in order on one side only')
            return 'diff'
        if self.exact(a) and self.exact(b):
            msg = self._odd_pair(a, b, path) or self._one_part(a, b)
            if msg:
                self.note(a, b, path, msg)
                return 'diff'
        # one side is plain arithmetic over parts of the other, which also
        # depends on an aggregate the first never looks at
        if self.exact(a) and self.exact(b) and T.numericish(a) and T.numericish(b):
            ca, cb = _constructs(a), _constructs(b)
            if ca != cb and (ca <= cb or cb <= ca) and all(x[0] in AGGREGATES for x in ca ^ cb):
                self.note(a, b, path)
                return 'diff'
        # arithmetic over different aggregates, where one side also turns on
        # a figure of each that the other never looks at
        if self.exact(a) and self.exact(b) and T.numericish(a) and T.numericish(b) and a[0] == b[0] == 'poly':
            ca, cb = _constructs(a), _constructs(b)
            na, nb = _names(a), _names(b)
            asked = {y for c, _ in path for y in T.walk(c) if y[0] in AGGREGATES}
            if ca and cb and not ca & cb and all(x[0] in AGGREGATES for x in ca ^ cb) and na != nb and (na < nb or nb < na) and len(asked) <= 1 and \
                    any(x[0] == 'a' and x[1][0] in ('ov', 'bv') and x[2] in na ^ nb for x in _outside(a) | _outside(b)):
                self.note(a, b, path)
                return 'diff'
        # a missing or extra arithmetic contribution made of known parts
        if self.exact(a) and self.exact(b) and T.numericish(a) and T.numericish(b):
            pa, pb = T.to_poly(a), T.to_poly(b)
            extra = [m for m in pa if m not in pb] , [m for m in pb if m not in pa]
            if (not extra[0]) != (not extra[1]) or (not extra[0] and not extra[1]):
                self.note(a, b, path, 'contribution missing or extra')
                return 'diff'
        return 'unknown'

    def _filtered(self, x):
        """(collection, element, which of its elements are in x) for a selection of the elements of a collection."""
        v = mk('bv', 999)
        if x[0] == 'setdiff':
            base = x[1][1] if x[1][0] == 'toset' else x[1]
            return base, v, T.b_not(T.mk_in(v, x[2]))
        if x[0] in ('setc', 'listc') and x[3] == mk('bv', x[1]):
            return x[2], v, T.open_((x[4],), x[1], v)[0]
        return None

    def _odd_pair(self, a, b, path=()):
        """Two things alike in kind that cannot be the same."""
        if {a[0], b[0]} in ({'setdiff', 'setc'}, {'setdiff', 'listc'}):
            fa, fb = self._filtered(a), self._filtered(b)
            if fa and fb and fa[0] == fb[0]:
                ca, cb = T.within(fa[1], fa[0], fa[2]), T.within(fa[1], fa[0], T.subst(fb[2], {fb[1]: fa[1]}))
                keep = self.why
                r = self.cmp(ca, cb, ())
                self.why = keep
                if r == 'diff':
                    return 'others are left out'
        for x, y in ((a, b), (b, a)):
            # changed step by step, or left as it starts
            if x[0] == 'fold' and len(x) > 4 and strip_versions(x[4]) == strip_versions(y) and y[0] in ('dictc', 'listc', 'setc') and \
                    not T.contains(x[3], lambda z: z[0] == 'opaque') and not any(
                        c[0] == 'truthy' or T.contains(c, lambda z: z[0] == 'len') for c, _ in path):     # there may be no turn to take
                return 'worked on only on one side'
            # nothing, or what another place has
            if x in (mk('set', ()), mk('list', ()), mk('dict', ())) and y[0] in ('toset', 'tolist', 'copy') and _place_like(strip_versions(y[1])):
                return 'starts from nothing on one side only'
            # put in order by something besides the things themselves, or as they come
            if x[0] == y[0] == 'sorted' and x[1] == y[1] and len(x) > 2 and len(y) == 2 and x[2][0] == 'lam' and \
                    T.contains(x[2], lambda z: z[0] in ('i', 'a') and T.contains(z[2] if z[0] == 'i' else z[1], lambda w: w[0] == 'lp')
                               and not (z[1][0] == 'lp')):
                return 'put in another order'
            # what is on record for another year, where the other has the figure of this year
            if x[0] == 'i' and x[1][0] == y[0] == 'a' and x[1][1] == y[1] and x[1][2].lstrip('_') == y[2] + '_history':
                d = T.to_poly(T._add2(x[2], neg(mk('a', y[1], 'this_year'))))
                if d and set(d) == {()}:
                    return 'another year'
            # a collection with more in it
            if x[0] == 'union' and y in x[1] and _place_like(y) and all(
                    z == y or z[0] == 'set' and len(z[1]) == 1 or _place_like(z) and not (
                        z[0] == y[0] == 'a' and (z[2].startswith(y[2]) or y[2].startswith(z[2]))) for z in x[1]):
                return 'more in it on one side'
            if x[0] == 'unionover' and y[0] == 'listc' and x[2] == y[2] and x[4] == y[4] and y[3][0] == 'flat' and \
                    y[3][1] in (x[3], mk('tolist', x[3])):
                return 'repeats kept on one side only'
            if x[0] == 'setdiff' and y in (x[1], x[1][1] if x[1][0] in ('toset', 'copy') else y, mk('toset', x[1])) and y != x and \
                    (_place_like(y) or y[0] == 'toset' and _place_like(y[1])):
                return 'some left out on one side only'
            if x[0] in ('setc', 'listc') and x[3] == mk('bv', x[1]) and x[2] == y and x[4] != TRUE and self.roots and \
                    all(z[0] in ('lt', 'eq0') for z in _tests(x[4])) and _names(x[4]) and \
                    not any(_names(x[4]) & _names(r) for r in self.roots if not T.contains(r, lambda z: z == x)):
                return 'some left out on one side only'
            if x[0] == 'deepcopy' and y[0] == 'copy' and x[1] in (y, y[1]):
                return 'copied in depth on one side only'
            if x[0] == 'dictc' and y[0] == 'i' and y[1] == x[2]:
                return 'a table of them against one of them'
            # a table that answers for everything against one that answers for what is listed
            if x[0] in ('dictc', 'dict') and y[0] == 'call' and y[1] == mk('g', 'ext:collections.defaultdict') and len(y[2]) == 1 and y[2][0][0] == 'lam':
                return 'answers for what is listed only'
            # entries left out by a test of their values
            if x[0] == 'dictc' and x[2] == y and x[3] == mk('bv', x[1]) and x[4] == T.mk_index(y, x[3]) and x[5] != TRUE and \
                    not _nonzero(x[5], x[4]):
                return 'entries left out on one side only'
        return None

    def _one_part(self, a, b):
        """The same but for one part."""
        sa, sb = set(T.walk(a)), set(T.walk(b))
        xs = [x for x in sa - sb if x[0] in _PARTS]
        ys = [y for y in sb - sa if y[0] in _PARTS]
        ys += [y for y in sb if y[0] in ('a', 'p') and y not in ys]
        xs += [x for x in sa if x[0] in ('a', 'p') and x not in xs]
        if len(xs) * len(ys) > 400:
            return None
        for x in xs:
            for y in ys:
                if x != y and not {x[0], y[0]} <= {'a', 'p'}:
                    msg = self._odd_pair(x, y)
                    if msg and (T.subst(a, {x: y}) == b or T.subst(b, {y: x}) == a):
                        return msg
        return None

    def _outright(self, a, b, path):
        """One side gives an argument outright where the other takes it, as given, from its table of arguments."""
        for x, y in ((a, b), (b, a)):
            kx, ky = dict(x[3]), dict(y[3])
            new = [n for n in kx if n not in ky]
            if '**' not in kx or '**' not in ky or len(new) != 1 or set(ky) - set(kx):
                continue
            known = {c: TRUE if v else FALSE for c, v in path}
            n, t = new[0], T.rebuild(ky['**'], known.get)
            if T.rebuild(kx['**'], known.get) == T.mk_delkey(t, T.const(n)) and (T.mk_in(T.const(n), t), True) in path and \
                    kx[n] != T.mk_index(t, T.const(n)) and self.exact(x) and self.exact(y):
                self.note(a, b, path, '%s is given whatever the table of arguments says' % n)
                return True
        return False

    @classmethod
    def _layers(cls, t):
        """A table and what is put over it, in order."""
        if t[:2] == ('op', 'dictmerge'):
            return cls._layers(t[2]) + cls._layers(t[3])
        return [t]

    def _layers_swapped(self, a, b):
        """The same tables laid over one another in another order, so that others win."""
        x, y = self._layers(a), self._layers(b)
        return x != y and sorted(x, key=T.key) == sorted(y, key=T.key) and not any(
            z[0] in ('dict', 'store') or z[:2] == ('op', 'delkey') for z in x)

    def _layer_thinned(self, a, b):
        """The same tables over one another, but of one only the entries whose values pass a test."""
        x, y = self._layers(a), self._layers(b)
        odd = [(u, v) for u, v in zip(x, y) if u != v]
        if len(x) != len(y) or len(odd) != 1:
            return False
        for u, v in (odd[0], odd[0][::-1]):
            if u[0] == 'dictc' and u[2] in (v, v[1] if v[0] == 'copy' else None) and u[3] == mk('bv', u[1]) and u[4] == mk('i', u[2], u[3]) and \
                    u[5] != TRUE and all(z[0] != 'in' for z in T.walk(u[5])) and T.mentions(u[5], u[4]):
                return True
        return False

    def _layer_missing(self, a, b):
        x, y = self._layers(a), self._layers(b)
        if len(x) == len(y) or x[0] != y[0]:
            return False
        if len(x) > len(y):
            x, y = y, x
        it = iter(y)
        if not all(any(z == w for w in it) for z in x):
            return False
        return all(z in x or z[0] in ('dict', 'dictc') for z in y)

    @staticmethod
    def _there(x):
        """A figure, table or function: never None."""
        if x[0] == 'call' and (x[1][0] == 'call' and x[1][1] == mk('b', 'type') or x[1][0] == 'b' and x[1][1] in (
                'list', 'dict', 'set', 'tuple', 'str', 'int', 'float')):
            return True
        return x[0] in ('poly', 'n', 'max', 'sum', 'dict', 'dictc', 'lam', 'c', 'fstr') and x != NONE and T.isnone(x) == FALSE

    def _structural(self, a, b, path):
        ka, kb = a[0], b[0]
        if ka == kb == 'loop' and (T.contains(a[1], lambda x: x[0] == 'opaque') or T.contains(b[1], lambda x: x[0] == 'opaque')):
            return 'unknown'        # whether another turn is taken is not read: neither is what a turn does
        if a[:2] == b[:2] == ('op', 'dictmerge') and self.exact(a) and self.exact(b) and self._layers_swapped(a, b):
            self.note(a, b, path, 'which table wins')
            return 'diff'
        if a[:2] == b[:2] == ('op', 'dictmerge') and self.exact(a) and self.exact(b) and self._layer_thinned(a, b):
            self.note(a, b, path, 'entries left out on one side only')
            return 'diff'
        if ka != kb:
            if 'upto' in (ka, kb):
                x, y = (a, b) if ka == 'upto' else (b, a)
                if x[2] == y and self.exact(a):
                    self.note(a, b, path, 'the loop ends early on one side only')
                    return 'diff'
            return self._final(a, b, path)
        if ka in ('sum', 'any', 'listc', 'setc', 'dictc', 'maxover', 'unionover', 'fold', 'first', 'prodover', 'each', 'wfold', 'carried', 'upto'):
            return self._binder(a, b, path)
        if ka == 'max':
            return self._cmp_max(a, b, path)
        if ka in ('lt', 'eq0'):
            return self._final(a, b, path)
        if ka == 'call':
            if a[1] != b[1]:
                # same method on different receivers, or another callee
                if a[1][0] == b[1][0] == 'a' and a[1][2] == b[1][2] and len(a[2]) == len(b[2]) and \
                        [k for k, _ in a[3]] == [k for k, _ in b[3]]:
                    pass
                else:
                    return self._final(a, b, path)
            if len(a[2]) != len(b[2]) or [k for k, _ in a[3]] != [k for k, _ in b[3]]:
                r = self._rebound(a, b, path)
                if r is None and a[1] == b[1] and a[2] == b[2] and self._outright(a, b, path):
                    return 'diff'
                return self._final(a, b, path) if r is None else r
            return self._pairs([(a[1], b[1])] + list(zip(a[2], b[2])) + [(x[1], y[1]) for x, y in zip(a[3], b[3])], path)
        if ka == 'ev':
            return self._ev(a, b, path)
        if ka in ('a', 'supera', 'super') :
            if a[2:] != b[2:] and ka == 'a':
                return self._final(a, b, path)
            if ka != 'a':
                return self._final(a, b, path)
            return self._pairs([(a[1], b[1])], path)
        if ka in ('n', 'c', 'p', 'g', 'b', 'bv', 'ov', 'fv', 'lp'):
            return self._final(a, b, path)
        if ka == 'poly':
            return self._cmp_num(a, b, path)
        if ka == 'lam':
            if a[1:3] != b[1:3]:
                return 'unknown'
            r = self._pairs([(a[3], b[3])], path)
            if r == 'diff' or a[7] == b[7]:
                return r
            ea, eb = _LamEvents(a[7], path), _LamEvents(b[7], path)
            r2, why = cmp_events(ea, eb, self.v)
            if r2 == 'diff':
                self.note(a, b, path, describe(why))
            return r2 if r2 != 'same' else r
        ca, cb = list(T.children(a)), list(T.children(b))
        if len(ca) != len(cb):
            if ka == 'evs':
                ok = all(self.exact(x) for x in ca + cb)
                small, big = sorted((list(ca), list(cb)), key=len)
                for x in small:
                    if x in big:
                        big.remove(x)
                    else:
                        ok = False
                if ok:
                    self.note(a, b, path)
                    return 'diff'
                r = self._resplit(ca, cb, path)
                return 'unknown' if r is None else r
            return self._final(a, b, path)
        if ka in ('union', 'inter', 'eq', 'set', 'evs'):
            sa, sb = set(ca), set(cb)
            ua, ub = sorted(sa - sb, key=T.key), sorted(sb - sa, key=T.key)
            if len(ua) == len(ub) == 1:
                return self.cmp(ua[0], ub[0], path)
            return self._final(a, b, path)
        r = self._pairs(list(zip(ca, cb)), path)
        if r == 'same':
            return self._final(a, b, path)     # differ in non-term parts
        return r

    def _resplit(self, ca, cb, path):
        """What is done for each of the same things, split up by cases on one side: put together again."""
        if 1 not in (len(ca), len(cb)) or max(len(ca), len(cb)) > 4:
            return None
        vs, both = [], []
        for side in (ca, cb):
            whole = None
            for ev in side:
                bases, g = [], TRUE
                while ev[0] == 'each':
                    if len(vs) <= len(bases):
                        self.nopen += 1
                        vs.append(mk('ov', self.nopen))
                    m = {mk('bv', ev[1]): vs[len(bases)]}
                    bases.append(ev[2])
                    g = T.b_and(g, T.subst(ev[3], m))
                    ev = T.subst(ev[4], m)
                if ev[0] != 'ev' or not bases:
                    return None
                if whole is None:
                    whole = (bases, SKIP, FALSE)
                if whole[0] != bases or T.b_and(whole[2], g) != FALSE:
                    return None
                whole = (bases, mk_ite(g, ev, whole[1]), T.b_or(whole[2], g))
            both.append(whole)
        if both[0][0] != both[1][0]:
            return None
        return self.cmp(both[0][1], both[1][1], path)

    def _rebound(self, a, b, path):
        """One call by position, the other by keyword, receiver unknown: try every
        signature the package has for the name. None when no signature takes both."""
        if a[1][0] != 'a' or len(a[2]) + len(a[3]) != len(b[2]) + len(b[3]):
            return None
        res = set()
        for pos in self.v.sigs(a[1][2]):
            both = []
            for t in (a, b):
                d = dict(t[3])
                if any(k not in pos for k in d) or len(t[2]) > len(pos) or any(n in d for n in pos[:len(t[2])]) or \
                        any(x[0] == 'star' for x in t[2]):
                    break
                d.update(zip(pos, t[2]))
                both.append(d)
            if len(both) < 2 or set(both[0]) != set(both[1]):
                continue
            why = self.why
            res.add(self._pairs([(a[1], b[1])] + [(both[0][k], both[1][k]) for k in sorted(both[0])], path))
            if self.why is not why and 'diff' not in res:
                self.why = why
        if not res:
            return None
        if 'same' in res:
            self.why = None
            return 'same'
        return 'diff' if res == {'diff'} else 'unknown'

    def _ev(self, a, b, path):
        if a[1] != b[1]:
            return self._final(a, b, path)
        pa, pb = [], []
        for x, y in zip(a[2:], b[2:]):
            if isinstance(x, T.Tm) and isinstance(y, T.Tm):
                pa.append((x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return self._final(a, b, path)
                for u, w in zip(x, y):
                    if isinstance(u, T.Tm):
                        pa.append((u, w))
                    else:
                        if u[0] != w[0]:
                            return self._final(a, b, path)
                        pa.append((u[1], w[1]))
            elif x != y:
                return self._final(a, b, path)
        return self._pairs(pa, path)

    def _pairs(self, pairs, path):
        res = 'same'
        for x, y in pairs:
            r = self.cmp(x, y, path)
            if r == 'diff':
                return r
            if r == 'unknown':
                res = r
        return res

    def _binder(self, a, b, path):
        if len(a) != len(b):
            return self._final(a, b, path)
        self.nopen += 1
        v = mk('ov', self.nopen)

        if a[0] == 'carried':
            pv = mk('prev', -self.nopen)

            def reopened(t):
                m = {mk('bv', t[2]): v, mk('prev', t[2]): pv}
                return [t[1], t[3], T.subst(t[4], m), t[5]]
            return self._pairs(list(zip(reopened(a), reopened(b))), path)

        def opened(t):
            if a[0] == 'fold':
                m = {mk('bv', t[1]): v, mk('prev', t[1]): mk('prev', -self.nopen)}
                return [T.subst(t[3], m), t[4]]
            return [T.subst(x, {mk('bv', t[1]): v}) if isinstance(x, T.Tm) else x for x in t[3:]]
        if a[0] == 'wfold':
            pairs = list(zip(a[1:], b[1:]))
            return self._pairs(pairs, path)
        r0 = self.cmp(a[2], b[2], path)
        if r0 == 'diff':
            return 'diff'
        r = self._pairs([(x, y) for x, y in zip(opened(a), opened(b)) if isinstance(x, T.Tm)], path)
        if r == 'diff' and a[0] == 'each' and r0 == 'same':
            # what is done for each of nothing is not done
            (ga, ea), (gb, eb) = opened(a), opened(b)
            na, nb = _done_at_all(ga, ea), _done_at_all(gb, eb)
            if (na, nb) != (ga, gb):
                keep = self.why
                r = self._pairs([(na, nb), (ea, eb)], path)
                r = 'diff' if r == 'diff' else 'unknown'
                self.why = keep if r == 'diff' else None
        if r == 'diff':
            # iterating something else may compensate: need the same source
            return 'diff' if r0 == 'same' else 'unknown'
        return 'unknown' if 'unknown' in (r0, r) else 'same'


def _done_at_all(g, ev):
    """When something is done at all."""
    while ev[0] == 'each' and not T.contains(ev[2], lambda x: x[0] == 'bv'):
        g = T.b_and(g, T.truthy(ev[2]))
        ev = ev[4]
    return g


class _LamEvents:
    """The effects of a closure, as far as they are possible on a path."""

    def __init__(self, t, path):
        self.events = []
        if t[0] != 'lamev':
            return
        for l, g in zip(t[1::2], t[2::2]):
            for c, v in path:
                l, g = assume(l, c, v), assume(g, c, v)
            if g != FALSE:
                self.events.append((l, g))


def expand_max(t):
    """All max() written out as diagrams (collapse disabled)."""
    def f(x):
        if x[0] == 'max':
            items = [T.rebuild(y, f) for y in x[1]]
            if len(items) > 5:
                return None
            r = items[0]
            for y in items[1:]:
                r = mk_ite(T.lt(r, y), y, r)
            return r
        return None
    T.COLLAPSE = False
    try:
        return T.rebuild(t, f)
    finally:
        T.COLLAPSE = True


def cmp_terms(a, b, vocab):
    if a is b or a == b:
        return 'same', None
    d = Differ(vocab)
    r = d.cmp(a, b)
    if r == 'diff' and (T.contains(a, lambda x: x[0] == 'max') or T.contains(b, lambda x: x[0] == 'max')):
        T.COLLAPSE = False
        try:
            a2, b2 = expand_max(a), expand_max(b)
            T.COLLAPSE = False
            d2 = Differ(vocab)
            r2 = d2.cmp(a2, b2)
        finally:
            T.COLLAPSE = True
        return r2, d2.why if r2 == 'diff' else None
    return r, d.why


def channel(ev):
    """What an event acts on: used to pair events and to name a missing one."""
    binders = 0
    while ev[0] == 'each':
        binders += 1
        ev = ev[4]
    if ev[0] == 'loop':
        return ('loop',)
    if ev[0] != 'ev':
        return (ev[0],)
    k = ev[1]
    if k == 'set':
        return ('set', ev[3])
    if k == 'setitem' or k == 'delitem':
        return (k, _tail(ev[2]))
    if k == 'mut':
        return ('mut', _tail(ev[2]), ev[3])
    if k == 'call':
        f = ev[2][1] if ev[2][0] == 'call' else ev[2]
        return ('call', f[2] if f[0] == 'a' else (f[1] if f[0] in ('super', 'g') else T.show(f)))
    return (k,) + tuple(x for x in ev[2:] if isinstance(x, str))


def _tail(t):
    while t[0] == 'v':
        t = t[1]
    if t[0] == 'a':
        return t[2]
    if t[0] == 'i':
        return _tail(t[1]) + '[]'
    if t[0] in ('p',):
        return t[1]
    return t[0]


def _sequences(evs):
    """Diagram of the multiset of events that happen on each path."""
    d = mk('evs')
    for l, g in sorted(evs, key=lambda x: T.key(x[0])):
        one = mk_ite(g, mk('evs', l), mk('evs'))
        if T.nleaves(d) * T.nleaves(one) > 1200:
            return None
        d = T.lift(lambda x, y: mk('evs', *sorted(x[1:] + y[1:], key=T.key)), d, one, limit=1200)
    return d


def _cancelled(ch, why, law):
    """A change left out where two objects are one and the same: another
    change that the law makes to that object overrides or undoes it."""
    path = why[2] if why and not isinstance(why[0], str) else ()
    for c, v in path:
        if v and c[0] == 'is' and ch[0] in ('set', 'mut'):
            own = {e[2] if ch[0] == 'set' else e[2][1] for e, _ in law if e[0] == 'ev' and e[1] == ch[0] and channel(e)[1] == ch[1]
                   and (ch[0] == 'set' or e[2][0] == 'a')}
            if set(c[1:]) <= own or any(e[0] == 'ev' and e[1] == ch[0] == 'set' and e[3] == ch[1] and set(c[1:]) == {mk('a', e[2], e[3]), e[4]}
                                        for e, _ in law):
                return True
    return False


def cmp_events(fa, fb, vocab, select=None):
    """Compare event lists (actual fa, law fb). Returns (verdict, detail)."""
    A = [(l, g) for l, g in fa.events if select is None or select(channel(l))]
    B = [(l, g) for l, g in fb.events if select is None or select(channel(l))]
    ua, ub = list(A), []
    for x in B:
        if x in ua:
            ua.remove(x)
        else:
            ub.append(x)
    if not ua and not ub:
        return 'same', None
    for xs, ys, who in ((ua, ub, 'once'), (ub, ua, 'again and again')):
        for l, g in xs:
            once = _once(l)
            if once and any(x[0] == 'guarded' for x in once):       # a loop of its own: its effects, whatever they hang on
                once = [x[2] if x[0] == 'guarded' else x for x in once]
            hit = [x for x, _ in ys if x in once] if once else []
            if hit and len(hit) == len(once):
                pair = (l, hit[0]) if xs is ua else (hit[0], l)
                return 'diff', ('repeated', channel(hit[0]), pair + ((), ''))
    res = 'same'
    d = Differ(vocab)
    chans = []
    for l, g in ub + ua:
        if channel(l) not in chans:
            chans.append(channel(l))
    todo = []
    for ch in chans:
        xa = [x for x in ua if channel(x[0]) == ch]
        xb = [x for x in ub if channel(x[0]) == ch]
        if xa and xb:
            if len(xa) == len(xb) == 1:
                (l2, g2), (l, g) = xa[0], xb[0]
                r, d1 = cmp_terms(mk_ite(g2, l2, SKIP), mk_ite(g, l, SKIP), vocab)
            else:
                sa, sb = _sequences(xa), _sequences(xb)
                if sa is None or sb is None:
                    r, d1 = 'unknown', None
                else:
                    r, d1 = cmp_terms(sa, sb, vocab)
            if r == 'diff' and not _cancelled(ch, d1, B):
                return 'diff', ('event', ch, d1)
            if r != 'same':
                res = 'unknown'
        else:
            todo.append((ch, xa, xb))
    for ch, xa, xb in todo:
        if xb:
            # a required effect has no counterpart at all: certain when nothing
            # unmodelled in the actual function could stand for it
            l, g = xb[0]
            others = [x for c2, y, _ in todo for x in y]
            if all(d.exact(x) and d.exact(y) for x, y in fa.events) and not others and res == 'same' \
                    and d.exact(l) and d.exact(g) and not any(_inner(x)[0] == 'loop' for x, _ in ua):
                return 'diff', ('missing', ch, (None, mk_ite(g, l, SKIP), (), ''))
            res = 'unknown'
    for ch, xa, xb in todo:
        if xa:
            if ch[0] == 'set' and ch[1] not in vocab.names:
                continue        # a new attribute of the edit's own
            l, g = xa[0]
            if d.exact(l) and d.exact(g) and not _opaque_events([(l, g)]) and not any(y for _, _, y in todo) and \
                    ch[0] in ('set', 'setitem', 'delitem', 'mut', 'call', 'delattr') and res == 'same':
                return 'diff', ('extra', ch, (mk_ite(g, l, SKIP), None, (), ''))
            res = 'unknown'
    return res, None


def _once(ev):
    """The events of one round of a conditional loop, in the same enclosing loops."""
    if ev[0] == 'each':
        inner = _once(ev[4])
        if inner is None:
            return None
        out = []
        for x in inner:
            g = ev[3]
            if x[0] == 'guarded':
                g, x = b_and(g, x[1]), x[2]
            out.append(mk('each', ev[1], ev[2], g, x))
        return out
    if ev[0] == 'loop':
        out = []
        for d in ev[2]:
            for l, g in leaf_guards(d):
                out.append(('guarded', b_and(ev[1], g), l))
        return out
    return None


def _opaque_events(evs):
    for l, _ in evs:
        for x in T.walk(l):
            if x[0] in ('opaque', 'exc', 'loop'):
                return True
    return False


def absent_diff(fa, fb, vocab):
    """A figure the code uses while it may be None, where the law does not.

    Conditions that only the course of the function settles (elements of a loop,
    failures met) are left open: for the law they may hold, for the code they do
    not count."""
    def when(x, conds, law):
        g, absent = TRUE, mk('isnone', x)
        for c in conds:
            c = assume(strip_versions(c), absent, True)
            if T.contains(c, lambda y: y[0] in ('fv', 'opaque', 'exc', 'prev', 'carried') or y[0] in LOOPS):
                if law:
                    continue
                return FALSE
            g = b_and(g, c)
            if g == FALSE:
                return g
            if T.nleaves(g) > 64:
                return TRUE if law else FALSE
        return g
    d = Differ(vocab)
    for x in sorted({x for x, _ in fa.needs}, key=T.key):
        law = FALSE
        for y, conds in fb.needs:
            if y == x:
                law = b_or(law, when(x, conds, True))
        if law == TRUE or T.nleaves(law) > 64 or not d.exact(x):
            continue
        for y, conds in fa.needs:
            if y != x:
                continue
            g = b_and(when(x, conds, False), b_not(law))
            if g == FALSE:
                continue
            for l, path in T.leaves(g):
                path = tuple(path) + ((mk('isnone', x), True),)
                if l == TRUE and all(d.exact(c) for c, _ in path) and feasible(path) and _possible(path):
                    return x, path
    return None


def order_diff(fa, fb, purity, cls=None):
    """Same events, but a conflicting pair in the other order."""
    return _order_diff(fa.order, fb.order, lambda x, y: TRUE if _conflict(x, y, purity, cls) else _one(x, y) if x[1] == 'mut' else FALSE) or \
        _order_diff(_plainly(fa.stores), _plainly(fb.stores), _one)


def _plainly(stores):
    return [(strip_versions(l), g) for l, g in stores]


def _order_diff(fa, fb, conflict):
    at = {}
    for i, (l, g) in enumerate(fa):
        at.setdefault(l, []).append((i, g))
    seq = [(l, g) for l, g in fb if l in at]
    for i, (x, gx) in enumerate(seq):
        for y, gy in seq[i + 1:]:
            c = conflict(x, y) if x != y and at[x][0][0] > at[y][0][0] else FALSE
            if c != FALSE:
                both = b_and(gx, gy, c)
                if both != FALSE and any(m < n and b_and(both, b_and(gm, gn)) != FALSE for n, gn in at[x] for m, gm in at[y]):
                    return (x, y)
    return None


INVERSE = ({'add', 'remove'}, {'add', 'discard'}, {'append', 'remove'})


def _owners(x, y):
    if x[0] != 'ev' or y[0] != 'ev' or x[1] != y[1]:
        return None
    if x[1] == 'set' and x[3] == y[3]:
        a, b, va, vb = x[2], y[2], x[4], y[4]
        if va == vb or _u(va) == _u(b) and _u(vb) == _u(a):
            return None
    elif x[1] == 'mut' and {x[3], y[3]} in INVERSE and x[4] == y[4] and x[2][0] == y[2][0] == 'a' and x[2][2] == y[2][2]:
        a, b = x[2][1], y[2][1]
    else:
        return None
    a, b = _u(a), _u(b)
    me = mk('p', 'self')
    if a == b or me in (a, b) and all(t == me or T.mentions(t, me) for t in (a, b)) or \
            me not in (a, b) and (T.mentions(a, b) or T.mentions(b, a)) or 'new' in (a[0], b[0]) or 'call' in (a[0], b[0]):
        return None
    return a, b


def _u(t):
    return strip_versions(t)


def _one(x, y):
    """When two changes to the same attribute of different objects meet: the objects are one and the same."""
    o = _owners(x, y)
    return FALSE if o is None else mk('is', *sorted(o, key=repr))


def _inner(ev):
    while ev[0] == 'each':
        ev = ev[4]
    return ev


ANY = frozenset(['*'])


def _access(e, purity, cls):
    """(attributes read, attributes changed) of the object itself by an event of its own."""
    self_ = mk('p', 'self')

    def own(t):
        while t[0] == 'v':
            t = t[1]
        return t == self_

    def of(f):
        rd, wr = purity.reads.get(f, ()), purity.writes.get(f, ())
        if f.name == 'next_year':
            rd = set(rd) | purity.recorded_reads(f.cls if cls is None else cls)
        return frozenset(rd), frozenset(wr)
    k = e[1]
    if k == 'set' and own(e[2]):
        g = cls.lookup_setter(e[3]) if cls is not None else None
        if g is not None:
            return of(g)
        return frozenset(), frozenset([e[3]])
    if k in ('setitem', 'mut', 'delitem'):
        t = e[2]
        while t[0] in ('v', 'i'):
            t = t[1]
        if t[0] == 'a' and own(t[1]):
            return frozenset([t[2]]), frozenset([t[2]])
        return None
    if k == 'call' and e[2][0] == 'call':
        f = e[2][1]
        if f[0] == 'super' and f[1] and f[2] != NONE:
            for c in (cls.mro if cls is not None else ()):
                if c.name == f[2][2] and f[1] in c.members:
                    return of(c.members[f[1]])
            return None
        if f[0] == 'a' and own(f[1]) and cls is not None:
            m = cls.lookup(f[2])
            if m is None:
                return ANY, frozenset()
            if m.kind in ('method', 'class'):
                return of(m)
        if f[0] == 'g':
            x = purity.p.find_function(f[1])
            if x is None:
                return None
            rd, wr = set(), set()
            for n, v in e[2][3]:
                ats = {t[2] for t in T.walk(v) if t[0] == 'a' and own(t[1])}
                rd |= ats
                while v[0] == 'v':
                    v = v[1]
                if n in purity.mutparams.get(x, ()) and v[0] == 'a' and own(v[1]):
                    wr.add(v[2])
            return frozenset(rd), frozenset(wr)
    return None


def _clash(x, y, purity, cls):
    a, b = _access(x, purity, cls), _access(y, purity, cls)
    if a is None or b is None:
        return False
    (ra, wa), (rb, wb) = a, b
    if x[1] == y[1] == 'set' and not (ra or rb):
        return False            # plain stores: the last value decides, and values are compared
    return bool(wa & (rb | wb) or wb & ra or wa and rb is ANY or wb and ra is ANY)


def _conflict(x, y, purity, cls=None):
    gx, gy = [], []
    for e, acc in ((x, gx), (y, gy)):
        while e[0] == 'each':
            acc.append((e[2], e[1], e[3]))
            e = e[4]
    for (i1, h1, c1), (i2, h2, c2) in zip(gx, gy):
        if i1 == i2:
            v = mk('ov', 0)
            if b_and(T.subst(c1, {mk('bv', h1): v}), T.subst(c2, {mk('bv', h2): v})) == FALSE:
                return False
    x, y = _inner(x), _inner(y)
    if x[0] != 'ev' or y[0] != 'ev':
        return False

    def target(e):
        if e[1] in ('setitem', 'mut', 'delitem', 'set'):
            return e[2]
        return None
    def head(e):
        return e[2][1][0] if e[1] == 'call' and e[2][0] == 'call' else e[1]
    hx, hy = head(x), head(y)
    if 'set' in (hx, hy) or 'super' in (hx, hy) or {hx, hy} in ({'g', 'a'}, {'mut', 'a'}, {'setitem', 'a'}, {'delitem', 'a'}):
        if _clash(x, y, purity, cls):
            return True
    tx, ty = target(x), target(y)
    if tx is not None and tx == ty and x[1] != 'set':
        if x[1] == y[1] == 'setitem':
            return x[3] == y[3]
        return True
    if x[1] == 'call' and y[1] == 'call' and x[2][0] == 'call' and y[2][0] == 'call':
        fx, fy = x[2][1], y[2][1]
        nx = fx[2] if fx[0] == 'a' else fx[1]
        ny = fy[2] if fy[0] == 'a' else fy[1]
        if not isinstance(nx, str) or not isinstance(ny, str):
            return False
        rx = fx[1] if fx[0] == 'a' else None
        ry = fy[1] if fy[0] == 'a' else None
        if rx is None or ry is None or rx != ry:
            return False
        return bool(purity.mods_of(nx) & (purity.reads_of(ny) | purity.mods_of(ny)))
    return False


def _amount_of(t):
    return T.rebuild(t, lambda x: _amount_of(x[2][0]) if x[0] == 'call' and x[1] == T._CONV and len(x[2]) == 1 else None)


_PARTS = ('i', 'a', 'union', 'unionover', 'copy', 'deepcopy', 'setdiff', 'listc', 'setc', 'dictc')


def _nonzero(c, v):
    """Does a condition say that a figure is not nothing?"""
    z = T.eq(v, ZERO)
    return any(x in (z, T.truthy(v)) for x in T.walk(c))


def describe(why):
    if why is None:
        return ''
    if why and isinstance(why[0], str):
        return '%s %s: %s' % (why[0], why[1], describe(why[2]))
    a, b, path, msg = why
    cut = lambda t: '(nothing)' if t is None else (show(t) if len(show(t)) < 400 else show(t)[:400] + '...')
    s = 'code has %s where the law has %s' % (cut(a), cut(b))
    if path:
        s += ' when ' + ' and '.join(('' if v else 'not ') + cut(c)[:120] for c, v in path[-4:])
    return s
