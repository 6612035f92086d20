"""Value-graph terms in canonical form.

A term is a nested tuple.  Constructors normalise: arithmetic to polynomials
over atoms, min to max, conditions to ordered decision diagrams, loops and
comprehensions to closed reductions with height-named bound variables.  Two
pieces of code that differ only in local names, helper boundaries, statement
order of independent statements, if/else shape, operand order or
loop-versus-comprehension style therefore get the same term.
"""

import hashlib
from fractions import Fraction

LEAF_LIMIT = 48
COLLAPSE = True

class Tm(tuple):
    """An interned term: equal terms are one object, with a cached hash and digest."""

    def __hash__(self):
        d = self.__dict__
        h = d.get('h')
        if h is None:
            h = d['h'] = tuple.__hash__(self)
        return h

    def __reduce__(self):
        return (mk, tuple(self))


_table = {}


class Budget(RecursionError):
    """A comparison was given up: reading more of the package in place took too many steps."""


class _Steps:
    n, limit = 0, None


def budget(limit, f):
    """f(), given up (Budget) after so many steps of building terms."""
    old = _Steps.limit
    _Steps.limit = _Steps.n + limit if old is None else min(old, _Steps.n + limit)
    try:
        return f()
    finally:
        _Steps.limit = old


def mk(*items):
    _Steps.n += 1
    if _Steps.limit is not None and _Steps.n > _Steps.limit:
        raise Budget('too many steps')
    t = Tm(items)
    return _table.setdefault(t, t)


NONE = mk('c', 'none', None)
TRUE = mk('c', 'bool', True)
FALSE = mk('c', 'bool', False)
INF = mk('inf',)

def key(t):
    """Stable digest of a term (order of diagrams and sums)."""
    if isinstance(t, Tm):
        d = t.__dict__
        k = d.get('k')
        if k is None:
            k = d['k'] = _digest(t)
        return k
    return _digest(t)


def _digest(t):
    if isinstance(t, tuple):
        return hashlib.blake2b('\x1f'.join(
            key(x) if isinstance(x, tuple) else type(x).__name__[0] + str(x) for x in t).encode(), digest_size=10).hexdigest()
    return repr(t)


def num(q):
    return mk('n', Fraction(q))


ZERO = num(0)
ONE = num(1)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v != v:
            return mk('c', 'nan', 'nan')
        if v in (float('inf'), float('-inf')):
            return INF if v > 0 else neg(INF)
        return mk('n', Fraction(repr(v)))
    return mk('c', type(v).__name__, repr(v) if not isinstance(v, str) else v)


def is_num(t):
    return t[0] == 'n'


# ---------------------------------------------------------------- decision diagrams

def is_ite(t):
    return t[0] == 'ite'


def _implied(c, given, val):
    """Truth of condition atom c when `given` is known to be val (or None)."""
    if c == given:
        return val
    if given[0] == 'lt':
        if c[0] == 'lt' and val and c[1] == neg(given[1]):
            return False
        if c[0] == 'eq0' and val and c[1] in (given[1], neg(given[1])):
            return False
    if given[0] == 'eq0' and val:
        if c[0] == 'lt' and c[1] in (given[1], neg(given[1])):
            return False
    if c[0] == 'truthy' and c[1][0] == 'call' and c[1][1] == mk('b', 'hasattr') and len(c[1][2]) == 2 and \
            given[0] in ('isinst', 'isnone') and val and given[1] == c[1][2][0] and c[1][2][1][:2] == ('c', 'str'):
        return False if given[0] == 'isnone' else HAS[0](given[2], c[1][2][1][2])
    if given[0] == c[0] == 'truthy' and IMPLIES[0] and given[1][0] == c[1][0] == 'call' and given[1][1][0] == c[1][1][0] == 'a' \
            and given[1][1][1] == c[1][1][1] and given[1][2:] == c[1][2:] == ((), ()):
        n, m = given[1][1][2], c[1][1][2]
        if val and m in IMPLIES[0].get(n, ()):
            return True
        if not val and n in IMPLIES[0].get(m, ()):
            return False
    if given[0] == 'isinst' and val and c[0] == 'isinst' and c[1] == given[1]:
        r = _kinds(given[2], c[2])
        if r is not None:
            return r
    if given[0] == 'truthy' and val and c[0] == 'truthy' and EXCLUSIVE:
        x, y = given[1], c[1]
        if x[0] == y[0] == 'call' and x[1][0] == y[1][0] == 'a' and x[1][1] == y[1][1] and x[2:] == y[2:] == ((), ()) and \
                x[1][2] != y[1][2] and any(x[1][2] in g and y[1][2] in g for g in EXCLUSIVE):
            return False
    if c[0] == 'any' and given[0] == 'isnone' and val and c[3] not in (TRUE, FALSE) and cof(c[3], given, True) == FALSE:
        return False        # of nothing
    if given[0] == 'isnone':
        if val and c[0] == 'truthy' and c[1] == given[1]:
            return False
        if val and c[0] == 'isinst' and c[1] == given[1]:
            return False
        if val and c[0] == 'in' and c[2] == given[1]:
            return False
        if val and c[0] == 'eq' and given[1] in c[1:] and any(_value(x) for x in c[1:]):
            return False
    if given[0] in ('truthy', 'isinst') and val and c[0] == 'isnone' and c[1] == given[1]:
        return False
    if given[0] == 'truthy' and not val and c[0] == 'in' and c[2] == given[1]:
        return False
    # a text is a str; None and tables are not callable
    if given[0] == 'eq' and val and c[0] == 'isinst' and c[2] == _STR and c[1] in given[1:] and any(x[:2] == ('c', 'str') for x in given[1:]):
        return True
    if given[0] == 'isinst' and not val and given[2] == _STR and c[0] == 'eq' and given[1] in c[1:] and any(x[:2] == ('c', 'str') for x in c[1:]):
        return False
    if c == _callable(given[1]) if given[0] in ('isnone', 'isinst') and val else False:
        return False if given[0] == 'isnone' or (given[2][0] == 'b' and given[2][1] in _LAYOUTS) else None
    if given[0] == 'truthy' and val and c[0] in ('isnone', 'isinst') and given == _callable(c[1]):
        return False if c[0] == 'isnone' or (c[2][0] == 'b' and c[2][1] in _LAYOUTS) else None
    if given[0] == 'in' and val and c[0] in ('truthy', 'isnone') and c[1] == given[2]:
        return c[0] == 'truthy'
    if given[0] == 'any' and val:
        # it has elements
        if c[0] in ('truthy', 'isnone') and c[1] == given[2]:
            return c[0] == 'truthy'
        if c[0] == 'eq' and given[2] in c[1:] and any(_empty(x) for x in c[1:]):
            return False
        if c[0] == 'any' and c[2] == given[2] and c[3] == TRUE:
            return True
    if c[0] == 'any':
        if given[0] == 'truthy' and not val and given[1] == c[2]:
            return False
        if given[0] == 'isnone' and val and given[1] == c[2]:
            return False
        if given[0] == 'eq' and val and c[2] in given[1:] and any(_empty(x) for x in given[1:]):
            return False
        if given[0] == 'any' and not val and given[2] == c[2] and given[3] == TRUE:
            return False
        if given[0] == 'in' and val and given[2] == c[2] and c[3] == TRUE:
            return True
    if given[0] == 'any' and val and c[0] == 'isnone' and c[1][0] == 'maxover' and c[1][2] == given[2] and \
            subst(given[3], {mk('bv', given[1]): mk('bv', c[1][1])}) == c[1][4]:
        return False
    if val and c[0] == 'eq' and ((given[0] == 'in' and given[2] in c[1:]) or (given[0] == 'truthy' and given[1] in c[1:])) and \
            any(_empty(x) for x in c[1:]):
        return False
    if given[0] == 'eq' and val and (_empty(given[1]) or _empty(given[2])):
        y = given[2] if _empty(given[1]) else given[1]
        if (c[0] in ('truthy', 'isnone') and c[1] == y) or (c[0] == 'in' and c[2] == y):
            return False
    if given[0] == 'eq' and val:
        # equal to one literal: not to another, and true or false as that literal is
        for x, y in ((given[1], given[2]), (given[2], given[1])):
            if _value(x):
                if c[0] == 'isnone' and c[1] == y:
                    return False
                if c[0] == 'truthy' and c[1] == y:
                    return bool(x[2])
                if c[0] == 'eq' and y in c[1:]:
                    z = c[2] if c[1] == y else c[1]
                    if _value(z) and z != x:
                        return False
    return None


# queries of one object of which at most one holds (their own laws say so)
EXCLUSIVE = []
KNOWN_NONE = [lambda x: None]       # when is a figure None, as far as the package's own laws tell?
IMPLIES = [{}]      # operations that answer yes only if others do
INSTANCE = [lambda a, b: None]      # is what a constructor of the package builds an object of another class?
SUBCLASS = [lambda a, b: None]      # is one class of the package a kind of another? (the class table)
_STR = mk('b', 'str')


def _callable(x):
    return mk('truthy', mk('call', mk('b', 'callable'), (x,), ()))


_LAYOUTS = {'dict', 'list', 'tuple', 'str', 'int', 'float', 'set', 'frozenset', 'bytes'}
_ABCS = {'dict': {'Mapping', 'Iterable', 'Collection'}, 'list': {'Sequence', 'Iterable', 'Collection'}, 'tuple': {'Sequence', 'Iterable', 'Collection'},
         'str': {'Sequence', 'Iterable', 'Collection'}, 'set': {'Set', 'Iterable', 'Collection'}, 'frozenset': {'Set', 'Iterable', 'Collection'}}


def _kinds(a, b):
    """Is an object of type a also of type b? (None: either)"""
    if a[0] == 'b' and a[1] in _LAYOUTS:
        if b[0] == 'b' and b[1] in _LAYOUTS:
            return a[1] == b[1]
        if b[0] == 'g' and b[1].startswith('ext:collections.abc.') and b[1].split('.')[-1] in _ABCS.get(a[1], ()):
            return True
    if a[0] == 'g' and b[0] in ('g', 'b'):
        return SUBCLASS[0](a, b)
    return None


HAS = [lambda cls, attr: None]      # does an object of a class have an attribute? (the program's class table)


def mk_hasattr(o, n):
    if o == NONE and n[:2] == ('c', 'str') and not n[2].startswith('__'):
        return FALSE
    if o[0] == 'call' and o[1][0] == 'g' and n[:2] == ('c', 'str'):
        r = HAS[0](o[1], n[2])
        if r is not None:
            return TRUE if r else FALSE
    return mk('call', mk('b', 'hasattr'), (o, n), ())


def _value(x):
    return x[0] == 'c' and x[1] == 'str'


def _top(t):
    """Decision variable of a diagram (a bare condition atom is a diagram)."""
    if t[0] == 'ite':
        return t[1]
    if t[0] in _COND_HEADS:
        return t
    return None


def _hilo(t):
    return (t[2], t[3]) if t[0] == 'ite' else (TRUE, FALSE)


def cof(t, c, val):
    """Cofactor of a decision diagram."""
    v = _top(t)
    if v is None:
        return t
    i = _implied(v, c, val)
    if t[0] != 'ite':
        return t if i is None else (TRUE if i else FALSE)
    if i is True:
        return cof(t[2], c, val)
    if i is False:
        return cof(t[3], c, val)
    hi, lo = cof(t[2], c, val), cof(t[3], c, val)
    if hi is t[2] and lo is t[3]:
        return t
    return _node(t[1], hi, lo)


_COND_HEADS = {'lt', 'eq0', 'eq', 'isnone', 'truthy', 'in', 'isinst', 'any', 'exc', 'is'}


def is_cond(t):
    return t in (TRUE, FALSE) or t[0] in _COND_HEADS or (
        t[0] == 'ite' and is_cond(t[2]) and is_cond(t[3])) or (
        t[0] == 'call' and t[1] in _BOOL_CALLS)


_BOOL_CALLS = {mk('b', 'hasattr'), mk('b', 'callable'), mk('b', 'issubclass')}


def _node(v, hi, lo):
    if hi == lo:
        return hi
    if hi == TRUE and lo == FALSE:
        return v
    if v[0] == 'eq0' and numericish(hi) and numericish(lo):
        # p == 0 and branches equal under p == 0
        d = sub(hi, lo, lift_ok=False)
        if d == v[1] or d == neg(v[1]):
            return lo
    if COLLAPSE and v[0] == 'lt' and numericish(hi) and numericish(lo):
        d = sub(hi, lo, lift_ok=False)
        if d == v[1]:
            return mk_min([hi, lo])
        nd = neg(v[1])
        if d == nd:
            return mk_max([hi, lo])
        # lt atoms are normalised up to a positive factor
        if d[0] in ('poly', 'n') and not is_num(d):
            if _scale(d) == v[1]:
                return mk_min([hi, lo])
            if _scale(neg(d)) == v[1]:
                return mk_max([hi, lo])
    return mk('ite', v, hi, lo)


_NONNUM = {'c', 'dict', 'list', 'tuple', 'set', 'listc', 'setc', 'dictc', 'lam',
           'raise', 'ite', 'end', 'brk', 'cont', 'undef', 'store', 'copy', 'union', 'fstr'}


def numericish(t):
    return t[0] not in _NONNUM


def mk_ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if c[0] == 'ite':
        if c[1:] == (c[1], FALSE, TRUE):
            return mk_ite(c[1], b, a)
        return mk_ite(c[1], mk_ite(c[2], a, b), mk_ite(c[3], a, b))
    if c[0] not in _COND_HEADS:
        c = truthy(c)
        if c in (TRUE, FALSE) or c[0] == 'ite':
            return mk_ite(c, a, b)
    v = c
    for x in (a, b):
        y = _top(x)
        if y is not None and y != v and key(y) < key(v):
            v = y
    if v == c:
        return _node(c, cof(a, c, True), cof(b, c, False))
    i = _implied(c, v, True)
    hi = mk_ite(c if i is None else (TRUE if i else FALSE), cof(a, v, True), cof(b, v, True))
    i = _implied(c, v, False)
    lo = mk_ite(c if i is None else (TRUE if i else FALSE), cof(a, v, False), cof(b, v, False))
    return _node(v, hi, lo)


def b_not(c):
    return mk_ite(c, FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in reversed(cs):
        r = mk_ite(c, r, FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in reversed(cs):
        r = mk_ite(c, TRUE, r)
    return r


def leaves(t):
    """Leaves of a decision diagram with the path conditions leading to them."""
    out = []

    def go(t, path):
        if t[0] == 'ite':
            go(t[2], path + ((t[1], True),))
            go(t[3], path + ((t[1], False),))
        else:
            out.append((t, path))
    go(t, ())
    return out


_nl = {}


def nleaves(t):
    """Leaves of a diagram, counted with multiplicity (memoised by identity)."""
    if t[0] != 'ite':
        return 1
    r = _nl.get(id(t))
    if r is None or r[0] is not t:
        n = nleaves(t[2]) + nleaves(t[3])
        if len(_nl) > 200000:
            _nl.clear()
        _nl[id(t)] = (t, n)
        return n
    return r[1]


def lift(fn, *args, limit=None):
    """Apply a strict operator below the decision diagrams of its arguments."""
    n = 1
    for a in args:
        n *= nleaves(a)
        if n > (limit or LEAF_LIMIT):
            return fn(*args)
    tops = [a[1] for a in args if a[0] == 'ite']
    if not tops:
        return fn(*args)
    v = min(tops, key=key)
    return mk_ite(v, lift(fn, *[cof(a, v, True) for a in args], limit=limit),
                  lift(fn, *[cof(a, v, False) for a in args], limit=limit))


# ---------------------------------------------------------------- arithmetic

def to_poly(t):
    if t[0] == 'n':
        return {(): t[1]} if t[1] else {}
    if t[0] == 'poly':
        return dict(t[1])
    if t == TRUE:
        return {(): Fraction(1)}
    if t == FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return key(m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('n', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0]))))


def _add2(a, b):
    pa = to_poly(a)
    for m, c in to_poly(b).items():
        pa[m] = pa.get(m, 0) + c
    return from_poly(pa)


def add(a, b, lift_ok=True):
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    if not _arith(a) or not _arith(b):
        if a[0] in ('list', 'tuple') and a[0] == b[0]:
            return mk(a[0], a[1] + b[1])
        if a[0] != 'ite' and b[0] != 'ite':
            return mk('cat', a, b)
    return lift(_add2, a, b) if lift_ok else _add2(a, b)


def _arith(t):
    return t[0] not in ('list', 'tuple', 'dict', 'set', 'listc', 'fstr', 'cat') and not (
        t[0] == 'c' and t[1] in ('str', 'none'))


def neg(a):
    if isinstance(a, Tm):
        d = a.__dict__
        r = d.get('neg')
        if r is None:
            r = d['neg'] = _neg(a)
        return r
    return _neg(a)


def _neg(a):
    if a[0] == 'ite' and nleaves(a) <= LEAF_LIMIT:
        return lift(neg, a)
    if a[0] == 'poly':
        if len(a[1]) == 1 and a[1][0][1] == -1 and len(a[1][0][0]) == 1 and a[1][0][0][0][1] == 1:
            return a[1][0][0][0][0]
        return mk('poly', tuple((m, -c) for m, c in a[1]))
    p = {m: -c for m, c in to_poly(a).items()}
    return from_poly(p)


def sub(a, b, lift_ok=True):
    sets = ('set', 'union', 'setc', 'toset', 'unionover', 'setdiff')
    if a[0] in sets or b[0] in sets:
        return mk('setdiff', a, b)
    return add(a, neg(b), lift_ok)


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: key(x[0])))


def _mul2(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 30:
        return from_poly({_mmul(((a, 1),), ((b, 1),)): Fraction(1)})
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return from_poly(out)


def mul(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    return lift(_mul2, a, b)


def _inv(b):
    if b[0] == 'n':
        if b[1] == 0:
            return mk('op', 'div0', ONE)
        return mk('n', 1 / b[1])
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((a, -e) for a, e in m): 1 / c})
    # factor out the leading coefficient so that scaling is canonical
    lead = b[1][0][1]
    scaled = from_poly({m: c / lead for m, c in p.items()})
    return from_poly({((scaled, -1),): 1 / lead})


def div(a, b):
    return mul(a, lift(_inv, b))


def power(a, b):
    if b[0] == 'n' and b[1].denominator == 1 and 0 < b[1] <= 3:
        r = a
        for _ in range(int(b[1]) - 1):
            r = mul(r, a)
        return r
    return lift(lambda x, y: mk('pow', x, y), a, b)


def _max_flat(items):
    out = set()
    for i in items:
        if i[0] == 'max':
            out |= set(i[1])
        else:
            out.add(i)
    nums = [i for i in out if i[0] == 'n']
    if len(nums) > 1:
        m = max(nums, key=lambda n: n[1])
        out -= set(nums)
        out.add(m)
    if neg(INF) in out and len(out) > 1:
        out.discard(neg(INF))
    if INF in out:
        return INF
    if len(out) == 1:
        return next(iter(out))
    return mk('max', tuple(sorted(out, key=key)))


def mk_max(items):
    items = list(items)
    if any(i[0] == 'ite' for i in items):
        return lift(lambda *xs: _max_flat(xs), *items)
    return _max_flat(items)


def mk_min(items):
    return neg(mk_max([neg(i) for i in items]))


def is_min(t):
    """Items of a min(...) term (stored as a negated max), or None."""
    if t[0] == 'poly' and len(t[1]) == 1:
        (m, c), = t[1]
        if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'max':
            return [neg(x) for x in m[0][0][1]]
    return None


# ---------------------------------------------------------------- conditions

def _scale(p):
    """Normalise a polynomial up to a positive factor."""
    if p[0] == 'n':
        return p
    d = to_poly(p)
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    lead = abs(items[0][1]) if items[0][0] != () or len(items) == 1 else abs(items[1][1])
    return from_poly({m: c / lead for m, c in d.items()})


def lt(a, b):
    def f(x, y):
        d = _amount(_add2(x, neg(y)))
        if d[0] == 'n':
            return TRUE if d[1] < 0 else FALSE
        if d == neg(INF):
            return TRUE
        if d == INF:
            return FALSE
        n = _counted(d)
        if n is not None:
            x, k, c = n         # k * len(x) + c < 0, len(x) a whole number from 0 on
            if k > 0 and -c / k <= 1:
                return b_not(truthy(x)) if c < 0 else FALSE
            if k < 0 and c / -k < 1:
                return truthy(x) if c >= 0 else TRUE
        ex = _extreme(d)
        if ex is not None:
            return ex
        return mk('lt', _scale(d))
    return lift(f, a, b)


def _extreme(d):
    """max(v for x in xs) + c < 0: none of the v + c is 0 or more; c - max(...) < 0: one of them is more than c."""
    if d[0] == 'maxover':
        p = {((d, 1),): 1}
    elif d[0] == 'poly':
        p = dict(d[1])
    else:
        return None
    tops = [(m, k) for m, k in p.items() if any(f[0][0] == 'maxover' for f in m)]
    if len(tops) != 1 or len(tops[0][0]) != 1 or tops[0][0][0][1] != 1 or abs(tops[0][1]) != 1:
        return None
    m, k = tops[0]
    t = m[0][0]
    if t[5] != NONE or not _arith(t[3]):
        return None
    rest = from_poly({x: c for x, c in p.items() if x != m})
    if any(x == mk('bv', t[1]) for x in walk(rest)):
        return None
    # a maximum raises on an empty collection, which is not at issue here
    if k > 0:
        return b_not(mk_any(t[1], t[2], b_and(t[4], b_not(lt(_add2(t[3], rest), ZERO)))))
    return mk_any(t[1], t[2], b_and(t[4], lt(_add2(rest, neg(t[3])), ZERO)))


_CONV = mk('b', 'precision_convert')


def _amount(d):
    """A figure to be compared: the amount counts, not the type it is expressed in."""
    if d[0] == 'call' and d[1] == _CONV and len(d[2]) == 1:
        return d[2][0] if _arith(d[2][0]) else d
    if d[0] != 'poly':
        return d
    out = ZERO
    hit = False
    for m, c in d[1]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'call' and m[0][0][1] == _CONV and len(m[0][0][2]) == 1 and _arith(m[0][0][2][0]):
            hit = True
            out = _add2(out, _scaled(m[0][0][2][0], c))
        else:
            out = _add2(out, from_poly({m: c}))
    return out if hit else d


def _scaled(t, c):
    return from_poly({m: k * c for m, k in to_poly(t).items()})


def _counted(d):
    """(x, k, c) if d is k * len(x) + c."""
    if d[0] == 'len':
        return d[1], 1, 0
    if d[0] != 'poly':
        return None
    p = dict(d[1])
    c = p.pop((), 0)
    if len(p) != 1:
        return None
    (m, k), = p.items()
    if len(m) != 1 or m[0][1] != 1 or m[0][0][0] != 'len':
        return None
    return m[0][0][1], k, c


def _flagged(d):
    """What d == 0 comes to where d is made of conditions, as figures 0 and 1, and
    a constant: k * p + c, or p - q."""
    if d[0] in _COND_HEADS:
        return b_not(d)
    if d[0] != 'poly':
        return None
    p = dict(d[1])
    c = p.pop((), 0)
    if any(len(m) != 1 or m[0][1] != 1 or m[0][0][0] not in _COND_HEADS for m in p):
        return None
    q = sorted(((m[0][0], k) for m, k in p.items()), key=lambda i: key(i[0]))
    if len(q) == 1:
        x, k = q[0]
        return b_not(x) if c == 0 else x if c == -k else FALSE
    if len(q) == 2 and c == 0 and q[0][1] == -q[1][1]:
        return mk_ite(q[0][0], q[1][0], b_not(q[1][0]))
    return None


def le(a, b):
    return b_not(lt(b, a))


def eq(a, b):
    def f(x, y):
        if x == y:
            return TRUE
        if x[0] == y[0] == 'tuple':
            if len(x[1]) != len(y[1]) and not any(z[0] == 'star' for z in x[1] + y[1]):
                return FALSE
            if not any(z[0] == 'star' for z in x[1] + y[1]):
                return b_and(*[eq(u, w) for u, w in zip(x[1], y[1])])
        if x == NONE or y == NONE:
            return isnone(y if x == NONE else x)
        if x[0] == 'c' or y[0] == 'c' or not _arith(x) or not _arith(y):
            if x[0] == 'c' and y[0] == 'c':
                return FALSE
            if x in (TRUE, FALSE) or y in (TRUE, FALSE):
                o, k = (y, x) if x in (TRUE, FALSE) else (x, y)
                if is_cond(o):
                    return o if k == TRUE else b_not(o)
            p = sorted((x, y), key=key)
            return mk('eq', p[0], p[1])
        d = _amount(_add2(x, neg(y)))
        if d[0] == 'n':
            return TRUE if d == ZERO else FALSE
        n = _counted(d)
        if n is not None:
            x, k, c = n
            if c == 0:
                return b_not(truthy(x))
            if -c / k < 0:
                return FALSE
        n = _flagged(d)
        if n is not None:
            return n
        d = _scale(d)
        n = neg(d)
        return mk('eq0', min((d, n), key=key))
    return lift(f, a, b)


def isnone(a):
    def f(x):
        if x == NONE:
            return TRUE
        if x[0] in ('n', 'poly', 'max', 'dict', 'list', 'tuple', 'set', 'listc', 'setc', 'dictc',
                    'sum', 'lam', 'copy', 'deepcopy', 'fstr', 'inf', 'g', 'new') or (
                        x[0] == 'c'):
            return FALSE
        if x[0] == 'call' and x[1][0] == 'b' and x[1][1] in ('int', 'float', 'str', 'len', 'list', 'dict', 'set', 'tuple', 'type', 'sorted', 'range'):
            return FALSE
        if x[0] == 'call' and x[1] == _CONV and len(x[2]) == 1:
            return f(x[2][0])
        k = KNOWN_NONE[0](x)
        if k is not None:
            return k
        return mk('isnone', x)
    return lift(f, a)


def truthy(a):
    if is_cond(a) and a[0] != 'call':
        return a

    def f(x):
        if x == NONE:
            return FALSE
        if x[0] == 'call' and x[1] == mk('b', 'callable') and len(x[2]) == 1 and not x[3]:
            y = x[2][0]
            if y[0] == 'ite' and nleaves(y) <= LEAF_LIMIT:
                return lift(lambda z: truthy(mk('call', x[1], (z,), ())), y)
            if y == NONE or y[0] in ('n', 'c', 'inf', 'dict', 'list', 'tuple', 'set', 'poly'):
                return FALSE
            if y[0] == 'lam':
                return TRUE
        if x[0] == 'n':
            return TRUE if x[1] else FALSE
        if x[0] == 'c':
            if x[1] == 'str':
                return TRUE if x[2] else FALSE
            return TRUE if x[2] else FALSE
        if x[0] in ('dict', 'list', 'tuple', 'set') and not x[1]:
            return FALSE
        if x[0] in ('lam', 'inf', 'g'):
            return TRUE
        if x[0] == 'len':
            return truthy(x[1])
        if x[0] in ('poly', 'sum', 'max'):
            return b_not(eq(x, ZERO))
        if x[0] in _COND_HEADS:
            return x
        if x[0] in ('listc', 'setc') and x[3][0] != 'flat':
            return mk_any(x[1], x[2], x[4])
        if x[0] == 'dictc':
            return mk_any(x[1], x[2], x[5])
        return mk('truthy', x)
    return lift(f, a)


# ---------------------------------------------------------------- traversal

def children(t):
    """Sub-terms of a term."""
    h = t[0]
    if h == 'poly':
        for m, _ in t[1]:
            for a, _e in m:
                yield a
    elif h in ('n', 'c', 'p', 'g', 'b', 'fv', 'ov', 'bv', 'inf', 'end', 'brk', 'cont', 'undef', 'lp', 'prev'):
        return
    elif h == 'call':
        yield t[1]
        for a in t[2]:
            yield a
        for _, v in t[3]:
            yield v
    else:
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in HEADS:
                    yield x
                else:
                    for y in x:
                        if isinstance(y, tuple) and y:
                            if isinstance(y[0], str) and y[0] in HEADS:
                                yield y
                            else:
                                for z in y:
                                    if isinstance(z, tuple) and z and isinstance(z[0], str) and z[0] in HEADS:
                                        yield z


HEADS = {'n', 'c', 'p', 'g', 'b', 'a', 'i', 'v', 'call', 'poly', 'max', 'ite', 'lt', 'eq0', 'eq',
         'isnone', 'truthy', 'in', 'isinst', 'any', 'exc', 'is', 'sum', 'listc', 'setc', 'dictc',
         'maxover', 'unionover', 'first', 'fold', 'list', 'tuple', 'dict', 'set', 'union', 'setdiff',
         'copy', 'deepcopy', 'lam', 'lp', 'fv', 'ov', 'bv', 'pow', 'op', 'inf', 'end', 'brk', 'cont', 'undef',
         'raise', 'cat', 'fstr', 'store', 'sorted', 'values', 'items', 'super', 'supera', 'star',
         'opaque', 'new', 'slice', 'inter', 'len', 'flat', 'range', 'toset', 'tolist', 'ctx', 'wfold',
         'zip', 'enum', 'ev', 'each', 'loop', 'skip', 'yieldv', 'fn', 'prodover', 'partial', 'upd', 'carried', 'prev', 'lamev', 'evs', 'upto'}


def walk(t):
    """Sub-terms, each shared object once."""
    seen = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, sub_):
    return any(x == sub_ for x in walk(t))


_LEAFH = {'n', 'c', 'p', 'g', 'b', 'fv', 'ov', 'bv', 'inf', 'end', 'brk', 'cont', 'undef', 'lp', 'exc', 'prev'}


def rebuild(t, f, memo=None):
    """Rebuild a term bottom-up through the constructors, mapping by f first.

    Memoised by identity, and unchanged sub-terms are returned as they are."""
    if memo is None:
        memo = {}
    m = memo.get(id(t))
    if m is not None:
        return m[1]
    r = f(t)
    if r is None:
        r = _rebuild1(t, f, memo)
    memo[id(t)] = (t, r)
    return r


def _rebuild1(t, f, memo):
    h = t[0]
    if h in _LEAFH:
        return t
    ch = list(children(t))
    new = [rebuild(x, f, memo) for x in ch]
    if all(x is y for x, y in zip(ch, new)):
        return t
    g = lambda x: memo[id(x)][1] if id(x) in memo else rebuild(x, f, memo)
    if h == 'poly':
        acc = ZERO
        for m, c in t[1]:
            x = mk('n', c)
            for a, e in m:
                a2 = g(a)
                if e == 1:
                    x = mul(x, a2)
                elif e > 0:
                    for _ in range(e):
                        x = mul(x, a2)
                else:
                    for _ in range(-e):
                        x = div(x, a2)
            acc = add(acc, x)
        return acc
    if h == 'max':
        return mk_max([g(x) for x in t[1]])
    if h == 'ite':
        return mk_ite(g(t[1]), g(t[2]), g(t[3]))
    if h == 'lt':
        return lt(g(t[1]), ZERO)
    if h == 'eq0':
        return eq(g(t[1]), ZERO)
    if h == 'eq':
        return eq(g(t[1]), g(t[2]))
    if h == 'isnone':
        return isnone(g(t[1]))
    if h == 'truthy':
        return truthy(g(t[1]))
    if h == 'call':
        return mk('call', g(t[1]), tuple(g(a) for a in t[2]), tuple((k, g(v)) for k, v in t[3]))
    if h == 'i':
        return mk_index(g(t[1]), g(t[2]))
    if h == 'in':
        return mk_in(g(t[1]), g(t[2]))
    if h == 'loop' and g(t[1]) == FALSE:
        return mk('skip')
    if h == 'upto':
        return mk_upto(t[1], g(t[2]), g(t[3]))
    if h == 'sum' and _empty(g(t[2])):
        return ZERO
    if h == 'any' and (_empty(g(t[2])) or g(t[3]) == FALSE):
        return FALSE
    return mk(*[_rb(x, g) for x in t])


def mk_upto(h, base, cond):
    """The elements of base up to the first that satisfies cond."""
    return base if cond == FALSE else mk('upto', h, base, cond)


def _rb(x, g):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in HEADS:
            return g(x)
        return tuple(_rb(y, g) for y in x)
    return x


def subst(t, mapping):
    if not mapping:
        return t
    return rebuild(t, lambda x: mapping.get(x))


# ---------------------------------------------------------------- containers and reductions

_fresh = [0]


def fresh():
    _fresh[0] += 1
    return mk('fv', _fresh[0])


def height(*ts):
    h = 0
    for t in ts:
        for x in walk(t):
            if x[0] in ('bv', 'prev') and x[1] > h:
                h = x[1]
    return h


def close(fv, *ts):
    """Rename the fresh variable of a binder by height; returns (bv, terms)."""
    h = height(*ts) + 1
    bv = mk('bv', h)
    return bv, tuple(subst(t, {fv: bv}) for t in ts)


def within(v, base, t):
    """What is said about an element v of base: it is in base."""
    b = strip_order(base)
    while b[0] in ('toset', 'tolist', 'copy'):
        b = strip_order(b[1])
    if b[0] in ('c', 'n', 'range', 'upto'):
        return t
    m = mk('in', v, b)
    return rebuild(t, lambda x: TRUE if x == m else None) if isinstance(t, Tm) and contains(t, lambda x: x == m) else t


def open_(binder_terms, h, repl):
    return tuple(subst(t, {mk('bv', h): repl}) for t in binder_terms)


def strip_order(it):
    """Iteration source without ordering/materialising wrappers."""
    while True:
        if it[0] in ('sorted', 'tolist'):
            it = it[1]
        elif it[0] == 'copy':
            it = it[1]
        else:
            return it


def iter_source(it, ordered=False, dups=False):
    """(base iterable, fn mapping the loop variable to the element, cond fn).

    dups: the use does not mind meeting equal elements more than once."""
    if not ordered:
        it = strip_order(it)
    if it[0] == 'values':
        base, el, cond = iter_source(it[1], ordered)
        src = it[1]
        return base, (lambda v: mk_index(src, el(v))), cond
    if it[0] == 'items':
        base, el, cond = iter_source(it[1], ordered)
        src = it[1]
        return base, (lambda v: mk('tuple', (el(v), mk_index(src, el(v))))), cond
    if it[0] == 'dictc':
        h, b2, k, v, c = it[1], it[2], it[3], it[4], it[5]
        return b2, (lambda x: subst(k, {mk('bv', h): x})), (lambda x: subst(c, {mk('bv', h): x}))
    if it[0] in ('listc',) and not (it[3][0] == 'flat'):
        h, b2, body, c = it[1], it[2], it[3], it[4]
        return b2, (lambda x: subst(body, {mk('bv', h): x})), (lambda x: subst(c, {mk('bv', h): x}))
    if it[0] == 'setc' and dups:
        h, b2, body, c = it[1], it[2], it[3], it[4]
        return b2, (lambda x: subst(body, {mk('bv', h): x})), (lambda x: subst(c, {mk('bv', h): x}))
    if it[0] == 'toset' and dups and it[1][0] in ('listc', 'values', 'tuple', 'list'):
        return iter_source(it[1], ordered, dups)
    if it[0] == 'setc' and it[3] == mk('bv', it[1]):
        # a filtering set comprehension: the elements are those of the source
        h, b2, c = it[1], it[2], it[4]
        return b2, (lambda x: x), (lambda x: subst(c, {mk('bv', h): x}))
    if it[0] == 'toset' and it[1][0] in ('setc',):
        return iter_source(it[1], ordered)
    if it[0] == 'range' and it[1] != ZERO and it[3] == ONE and not any(x[0] == 'ite' for x in it[1:3]):
        # counted from zero
        a = it[1]
        return mk('range', ZERO, _add2(it[2], neg(a)), ONE), (lambda v: _add2(a, v)), (lambda v: TRUE)
    if it[0] == 'setdiff':
        base, el, cond = iter_source(it[1], ordered, dups)
        return base, el, (lambda v: b_and(cond(v), b_not(mk_in(el(v), it[2]))))
    return it, (lambda v: v), (lambda v: TRUE)


def mk_in(k, c):
    """Is k among the elements (keys) of c?"""
    if c[0] == 'ite' and nleaves(c) * nleaves(k) <= LEAF_LIMIT:
        return lift(mk_in, k, c)
    c = strip_order(c)
    if c[0] in ('toset', 'tolist', 'copy'):
        return mk_in(k, c[1])
    if c[0] in ('tuple', 'list', 'set') and len(c[1]) <= 4:
        return b_or(*[eq(k, x) for x in c[1]]) if c[1] else FALSE
    if c[0] == 'dict' and len(c[1]) <= 4:
        return b_or(*[eq(k, x) for x, _ in c[1]]) if c[1] else FALSE
    if c[0] == 'store':
        if c[2] == k:
            return TRUE
        if _ckey(k) and _ckey(c[2]):
            return mk_in(k, c[1])
    if c[0] == 'setdiff':
        return b_and(mk_in(k, c[1]), b_not(mk_in(k, c[2])))
    if c[0] in ('setc', 'listc') and c[3] == mk('bv', c[1]):
        return b_and(mk_in(k, c[2]), subst(c[4], {c[3]: k}))
    if c[0] == 'dictc' and c[3] == mk('bv', c[1]):
        return b_and(mk_in(k, c[2]), subst(c[5], {c[3]: k}))
    if c[0] == 'union' and len(c[1]) <= 4:
        return b_or(*[mk_in(k, x) for x in c[1]])
    if c[:2] == ('op', 'delkey'):
        if c[3] == k:
            return FALSE
        if _ckey(k) and _ckey(c[3]):
            return mk_in(k, c[2])
    return mk('in', k, c)


def mk_index(d, k):
    if d[0] == 'ite' and nleaves(d) * nleaves(k) <= LEAF_LIMIT:
        return lift(mk_index, d, k)
    if d[0] == 'dictc' and d[3] == mk('bv', d[1]):
        # value of a comprehension keyed by its own loop variable
        return subst(d[4], {mk('bv', d[1]): k})
    if d[0] == 'dict' and k[0] in ('c', 'n'):
        for kk, vv in reversed(d[1]):
            if kk == k:
                return vv
        return mk('i', d, k)
    if d[0] == 'dict' and k[0] in ('p', 'a', 'i') and 0 < len(d[1]) <= 4 and all(kk[:2] == ('c', 'str') for kk, _ in d[1]):
        t = mk('i', d, k)
        for kk, vv in d[1]:
            t = mk_ite(eq(k, kk), vv, t)
        return t
    if d[0] in ('tuple', 'list') and k[0] == 'n' and k[1].denominator == 1:
        i = int(k[1])
        if -len(d[1]) <= i < len(d[1]):
            return d[1][i]
    if d[0] == 'copy':
        return mk_index(d[1], k)
    if d[0] == 'store':
        if d[2] == k:
            return d[3]
        if _ckey(k) and _ckey(d[2]):
            return mk_index(d[1], k)
    if d[:2] == ('op', 'delkey') and _ckey(k) and _ckey(d[3]) and d[3] != k:
        return mk_index(d[2], k)
    return mk('i', d, k)


def _ckey(k):
    return k[0] in ('c', 'n')


def mk_store(d, k, v):
    """Table d with v under k; constant keys commute and replace."""
    if d[0] == 'dict' and _ckey(k) and all(_ckey(x) for x, _ in d[1]):
        return mk('dict', tuple((kk, vv) for kk, vv in d[1] if kk != k) + ((k, v),))
    if d[0] == 'store' and d[2] == k:
        return mk_store(d[1], k, v)
    if d[0] == 'store' and _ckey(k) and _ckey(d[2]) and key(k) < key(d[2]):
        return mk_store(mk_store(d[1], k, v), d[2], d[3])
    if d[0] == 'store' and _ckey(k):
        x = d
        while x[0] == 'store' and _ckey(x[2]):
            if x[2] == k:
                return mk_store(mk_delkey(d, k), k, v)
            x = x[1]
    if d[:2] == ('op', 'delkey') and d[3] == k:
        return mk_store(d[2], k, v)
    return mk('store', d, k, v)


def mk_delkey(d, k):
    """Table d without the key k."""
    if d[0] == 'dict' and _ckey(k) and all(_ckey(x) for x, _ in d[1]):
        return mk('dict', tuple((kk, vv) for kk, vv in d[1] if kk != k))
    if d[0] == 'store':
        if d[2] == k:
            return mk_delkey(d[1], k)
        if _ckey(k) and _ckey(d[2]):
            return mk_store(mk_delkey(d[1], k), d[2], d[3])
    if d[:2] == ('op', 'delkey'):
        if d[3] == k:
            return d
        if _ckey(k) and _ckey(d[3]) and key(k) < key(d[3]):
            return mk('op', 'delkey', mk_delkey(d[2], k), d[3])
    return mk('op', 'delkey', d, k)


def mk_sum(it, body_fn, cond=TRUE):
    """Sum of body over the iterable; body_fn: element -> term."""
    base, el, c2 = iter_source(it)
    v = fresh()
    e = el(v)
    body = body_fn(e)
    c = b_and(c2(v), cond(e) if callable(cond) else cond)
    if c != TRUE:
        body = mk_ite(c, body, ZERO)
    return sum_closed(base, v, body)


def sum_closed(base, v, body):
    body = within(v, base, body)
    if body == ZERO or _empty(base):
        return ZERO
    if base[0] in ('tuple', 'list') and len(base[1]) <= 4:
        r = ZERO
        for x in base[1]:
            r = add(r, subst(body, {v: x}))
        return r
    if body[0] == 'ite':
        if not mentions(body[1], v):
            return mk_ite(body[1], sum_closed(base, v, body[2]), sum_closed(base, v, body[3]))
        bv, (b,) = close(v, body)
        return mk('sum', bv[1], base, b)
    out = ZERO
    for m, c in to_poly(body).items():
        inv = tuple((a, e) for a, e in m if not mentions(a, v))
        var = tuple((a, e) for a, e in m if mentions(a, v))
        vb = from_poly({var: Fraction(1)})
        bv, (b,) = close(v, vb)
        s = mk('sum', bv[1], base, b)
        out = add(out, mul(from_poly({inv: c}), s))
    return out


def undup(t):
    """The same term as if sets of computed values kept equal elements apart."""
    def f(x):
        if x[0] == 'sum' and (x[2][0] == 'setc' or x[2][0] == 'toset' and x[2][1][0] in ('listc', 'values')):
            src = undup(x[2][1]) if x[2][0] == 'toset' else mk('listc', x[2][1], undup(x[2][2]), undup(x[2][3]), undup(x[2][4]))
            body = undup(x[3])
            return mk_sum(src, lambda e: subst(body, {mk('bv', x[1]): e}))
        return None
    return rebuild(t, f)


def _empty(t):
    return t[0] in ('dict', 'list', 'set', 'tuple') and t[1] == () or t == mk('set')


def mk_dictc(bv, base, k, b, c):
    if k == bv and c == TRUE and b == mk('i', base, bv):    # every entry as it is
        return base if base[0] in ('copy', 'dict', 'dictc', 'store') else mk('copy', base)
    return mk('dictc', bv[1], base, k, b, c)


def comp(kind, it, body_fn, cond=None, key_fn=None):
    base, el, c2 = iter_source(it, ordered=(kind == 'listc'), dups=kind in ('any', 'setc', 'unionover'))
    if kind == 'any' and _empty(base):
        return FALSE
    v = fresh()
    e = el(v)
    c = within(v, base, b_and(c2(v), cond(e) if cond is not None else TRUE))
    if kind == 'dictc':
        k = key_fn(e)
        b = within(v, base, body_fn(e))
        bv, (k, b, c) = close(v, k, b, c)
        return mk_dictc(bv, base, k, b, c)
    b = within(v, base, body_fn(e))
    if kind == 'any':
        full = b_and(c, truthy(b))
        if full in (TRUE, FALSE):
            return full if full == FALSE else mk('any', 0, base, TRUE)
        bv, (full,) = close(v, full)
        return mk('any', bv[1], base, full)
    bv, (b, c) = close(v, b, c)
    if kind == 'listc' and b == bv and c == TRUE:
        return mk('tolist', base)
    if kind == 'setc' and b == bv and c == TRUE:
        return mk('set', ()) if base[0] in ('tuple', 'list') and base[1:] == ((),) else mk('toset', base)
    return mk(kind, bv[1], base, b, c)


def mk_any(n, base, cond):
    """Does a collection (cond in terms of its element, unknown n) have such an element?"""
    if cond == FALSE or _empty(base):
        return FALSE
    if base[0] == 'cat':
        return b_or(*[mk_any(n, x, cond) for x in base[1:]])
    if base[0] == 'a' and base[2] == '__mro__':
        # a class comes first in its own order of classes
        return b_or(subst(cond, {mk('bv', n): base[1]}), mk('any', n, base, cond)) if cond != TRUE else TRUE
    if base[0] in ('list', 'tuple') and len(base[1]) <= 4 and not any(x[0] == 'star' for x in base[1]):
        return b_or(*[subst(cond, {mk('bv', n): x}) for x in base[1]])
    if base[0] == 'listc' and base[3][0] != 'flat' and cond != TRUE:
        v = fresh()
        body, c = open_((base[3], base[4]), base[1], v)
        bv, (t,) = close(v, b_and(c, subst(cond, {mk('bv', n): body})))
        return mk_any(bv[1], base[2], t)
    return mk('any', 0, base, TRUE) if cond == TRUE else mk('any', n, base, cond)


def mk_union(items):
    out = set()
    for i in items:
        if i[0] == 'union':
            out |= set(i[1])
        elif i[0] == 'toset':
            out.add(i[1])
        elif i[0] == 'set' and not i[1]:
            continue
        elif i[0] == 'copy':
            out.add(i[1])
        else:
            out.add(i)
    if not out:
        return mk('set', ())
    if len(out) == 1:
        one = next(iter(out))
        return one if one[0] in ('setc', 'unionover', 'setdiff', 'inter', 'toset') else mk('toset', one)
    return mk('union', tuple(sorted(out, key=key)))


def union_over(it, body_fn, cond=None):
    base, el, c2 = iter_source(it)
    v = fresh()
    e = el(v)
    b = within(v, base, body_fn(e))
    if b[0] == 'toset':
        b = b[1]
    c = within(v, base, b_and(c2(v), cond(e) if cond is not None else TRUE))
    bv, (b, c) = close(v, b, c)
    return mk('unionover', bv[1], base, b, c)


# ---------------------------------------------------------------- pretty printing

def show(t, depth=0):
    h = t[0]
    if depth > 14:
        return '...'
    s = lambda x: show(x, depth + 1)
    if h == 'n':
        q = t[1]
        return str(q) if q.denominator == 1 else str(float(q))
    if h == 'c':
        return repr(t[2])
    if h in ('p',):
        return t[1]
    if h == 'g':
        return t[1].split(':')[-1]
    if h == 'b':
        return t[1]
    if h == 'inf':
        return 'inf'
    if h == 'a':
        return s(t[1]) + '.' + t[2]
    if h == 'supera':
        return 'super().' + t[1]
    if h == 'i':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if h == 'v':
        return "%s'%d" % (s(t[1]), t[2])
    if h == 'super':
        return 'super().' + t[1]
    if h == 'call':
        return '%s(%s)' % (s(t[1]), ', '.join([s(a) for a in t[2]] + ['%s=%s' % (k, s(v)) for k, v in t[3]]))
    if h == 'poly':
        mi = is_min(t)
        if mi is not None:
            return 'min(%s)' % ', '.join(s(x) for x in mi)
        parts = []
        for m, c in t[1]:
            f = []
            if c == -1 and m:
                sign = '-'
            elif c == 1 and m:
                sign = '+'
            else:
                sign = '+' if c > 0 else '-'
                f.append(s(mk('n', abs(c))))
            for a, e in m:
                x = s(a)
                if a[0] in ('poly', 'ite'):
                    x = '(' + x + ')'
                f.append(x if e == 1 else '%s^%d' % (x, e))
            parts.append(sign + '*'.join(f))
        return ' '.join(parts)
    if h == 'max':
        return 'max(%s)' % ', '.join(s(x) for x in t[1])
    if h == 'ite':
        return '(%s ? %s : %s)' % (s(t[1]), s(t[2]), s(t[3]))
    if h == 'lt':
        return '%s<0' % s(t[1])
    if h == 'eq0':
        return '%s==0' % s(t[1])
    if h == 'isnone':
        return '%s is None' % s(t[1])
    if h == 'sum':
        return 'SUM[b%d in %s](%s)' % (t[1], s(t[2]), s(t[3]))
    if h == 'bv':
        return 'b%d' % t[1]
    if h in ('listc', 'setc', 'unionover'):
        return '%s[b%d in %s if %s](%s)' % (h, t[1], s(t[2]), s(t[4]), s(t[3]))
    if h == 'dictc':
        return 'dict[b%d in %s if %s](%s: %s)' % (t[1], s(t[2]), s(t[5]), s(t[3]), s(t[4]))
    out = []
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in HEADS:
                out.append(s(x))
            else:
                out.append('[' + ', '.join(
                    s(y) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in HEADS
                    else ('(' + ', '.join(s(z) if isinstance(z, tuple) and z and z[0] in HEADS else str(z) for z in y) + ')' if isinstance(y, tuple) else str(y))
                    for y in x) + ']')
        else:
            out.append(str(x))
    return '%s(%s)' % (h, ', '.join(out))
