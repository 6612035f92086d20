"""Structural rules: queries over the class table, call sites and effects.

Each rule enumerates its sites in the current source and says for every one
whether it is in order.  A rule never fires on a function whose complete
behaviour was found equal to its law (see Context.settled): such a function
does what it should however it is written.
"""
import ast
import json
import os
import re

from . import terms as T
from .effects import GLOBAL


class Broken(Exception):
    pass


class Context:
    def __init__(self, program, purity, baseline, book, checker):
        self.p, self.pu, self.bl, self.book, self.ck = program, purity, baseline, book, checker
        self.law_of = {}
        for law in book.laws:
            if law.actual is not None and not getattr(law.actual, 'is_law', False):
                self.law_of.setdefault(law.actual, law)
        self._callers = None
        self._attrs = None
        self._state = {}

    def state(self, f):
        """same|diff|unknown|gone, or None when no law governs f."""
        if f not in self._state:
            law = self.law_of.get(f)
            self._state[f] = None if law is None else self.ck.own(self.ck.effective(law))[0]
        return self._state[f]

    def settled(self, f):
        """The function does what its law says, or is a helper read in place in functions that do."""
        if self.state(f) is None and not self.known(f):
            roots = self.roots_of(f)
            return bool(roots) and all(self.state(g) == 'same' for g in roots)
        return self.state(f) == 'same'

    def known_attr(self, name):
        if self._attrs is None:
            self._attrs = {n.attr for l in self.book.laws for n in ast.walk(l.node) if isinstance(n, ast.Attribute)}
        return name in self._attrs

    def known(self, f):
        return f.qual in self.bl['functions']

    def callers(self, f):
        """Functions that mention f by name (conservative)."""
        if self._callers is None:
            self._callers = {}
            for g in self.p.all_functions():
                for n in ast.walk(g.node):
                    nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                    if nm:
                        self._callers.setdefault(nm, set()).add(g)
        return [g for g in self._callers.get(f.name, ()) if g is not f]

    def roots_of(self, f):
        """The known functions on whose behalf f runs: itself, or for an added helper those that use it."""
        out, todo, seen = set(), [f], set()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            if self.known(g):
                out.add(g)
            else:
                todo += self.callers(g)
        return out

    def chain(self, f, param):
        """[(function, node)] from f to the construct that mutates param."""
        out, seen = [], set()
        while f is not None and (f, param) not in seen:
            seen.add((f, param))
            node, g = self.pu.why[f].get(param, (None, None))
            if node is None:
                break
            out.append((f, node))
            if g is None:
                break
            nxt = [x for x in self.pu.mut[g] if x in self.pu.why[g]]
            f, param = g, (nxt[0] if nxt else None)
        return out

    def suspicious(self, chain):
        """A chain of calls is believed only when some governed function on it departs from its law,
        or when none of its functions is governed at all."""
        states = [self.state(f) for f, _ in chain]
        if any(s in ('diff', 'unknown', 'gone') for s in states):
            return True
        return all(s is None for s in states)


def show_chain(chain):
    return ' -> '.join('%s:%d %s' % (f.module.rel, n.lineno, f.short) for f, n in chain)


class Result:
    def __init__(self, name, text, minimum=1):
        self.name, self.text, self.minimum = name, text, minimum
        self.sites = 0
        self.samples = []
        self.violations = []    # (where, what, finding id or None)
        self.unknown = []

    def site(self, where, ok=True, what='', fid=None):
        self.sites += 1
        if len(self.samples) < 40:
            self.samples.append(where)
        if not ok:
            self.violations.append((where, what, fid))


RULES = []


def rule(*props):
    def deco(fn):
        fn.props = props
        RULES.append(fn)
        return fn
    return deco


def for_property(pid):
    return [r for r in RULES if pid in r.props]


def at(f, node=None):
    return '%s:%d %s' % (f.module.rel, (node or f.node).lineno, f.short)


# ---------------------------------------------------------------- C14: queries change nothing
MUTATOR_NAMES = {
    '__init__', '__set__', '__setitem__', '__delitem__', '__delete__', '__set_name__', '__init_subclass__',
    'next_year', 'clear', 'clear_cache', 'add_transaction', 'add_transactions', 'undo_transactions',
    'convert_to_rrif', 'link_account', 'unlink_account', 'register', 'unregister', '_process_link', '_set_limit',
    'set_param', 'build_param', 'get_param', '_get_attr_recursive', 'read', 'add_accum', 'add_brackets',
    'subtract_transactions', '_process_alias_args', '_invalidate_capital_gain', '_swap_saturated',
    'call_subforecasts', '_carrover_overflow', '_carryover_tax', '_update_tax_withheld', '_add_transaction',
    'build_allocation_strategy', 'setter', 'deleter', 'getter', 'strategy_method'}
# classes whose methods answer questions
QUERY_CLASSES = ('Account', 'Person', 'Tax', 'TaxMulti', 'Strategy', 'LivingExpensesStrategySchedule', 'Scenario',
                 'InflationAdjust', 'RateFunction', 'TransactionNode', 'Timing', 'AccountLink')
QUERY_MODULES = ('forecaster.accounts.util', 'forecaster.utility.inflation', 'forecaster.utility.timing',
                 'forecaster.strategy.debt_payment.util', 'forecaster.strategy.transaction.util')
# effects inherent to a query: (function short name, root)
OWN_STATE = {('TaxableAccount.capital_gain', 'self'),        # next year's opening cost base, a figure of the account's own
             ('TransactionTraversal.__call__', 'self'), ('TransactionTraversal.__call__', GLOBAL)}


def queries(ctx):
    for f in ctx.p.all_functions():
        if f.kind in ('property', 'recorded', 'cached'):
            yield f
        elif f.name in MUTATOR_NAMES or f.kind in ('setter', 'deleter'):
            continue
        elif f.cls is not None and any(f.cls.is_subclass(q) for q in QUERY_CLASSES):
            if ctx.known(f) or not f.name.startswith('_'):
                yield f
        elif f.cls is None and f.module.name in QUERY_MODULES and (ctx.known(f) or not f.name.startswith('_')):
            if f.name != 'add_transactions':
                yield f
        elif f.short == 'TransactionTraversal.__call__':
            yield f


@rule('C14')
def query_purity(ctx, pid):
    r = Result('query purity', 'no question asked of an account, person, tax treatment, strategy, scenario or timing, '
               'and no getter of any object, mutates the object, an argument or shared state', 150)
    for f in queries(ctx):
        bad = []
        for root in sorted(ctx.pu.mut[f]):
            if root == GLOBAL and any(isinstance(d, ast.Call) for d in f.node.decorator_list):
                node, g = ctx.pu.why[f][root]
                if g is not None and g.name == 'strategy_method':
                    continue        # the decorator runs when the class is made
            if (f.short, root) in OWN_STATE:
                continue
            if any(root in ctx.ck.collects(l) for l in ctx.book.laws if l.actual is f):
                continue
            ch = ctx.chain(f, root)
            if ctx.suspicious(ch):
                bad.append('%s may be changed: %s' % (root, show_chain(ch)))
        if bad and ctx.settled(f):
            bad = []
        r.site(at(f), not bad, 'a query changes state: ' + '; '.join(bad))
    return r


@rule('C14', 'C12')
def plans_are_fresh(ctx, pid):
    r = Result('plans are fresh', 'the table of flows a planning question returns is not a table the object keeps', 5)
    names = {'max_inflows', 'max_outflows', 'min_inflows', 'min_outflows', 'transactions_to_balance', 'inflows_and_outflows'}
    for f in ctx.p.all_functions():
        if f.cls is not None and f.cls.is_subclass('Account') and f.name in names and f.kind == 'method':
            roots = ctx.pu.ret[f][0]
            r.site(at(f), not roots or ctx.settled(f), 'returns (part of) %s itself instead of a table of its own' % ', '.join(sorted(roots)))
    return r


# ---------------------------------------------------------------- C01: advancing a year
def super_calls(body, name, first):
    """Set of possible numbers of super().name() calls over the paths of a block (capped at 2); None = does not end."""
    def expr(n):
        return sum(1 for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == name
                   and isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == 'super')
    ends = set()

    def block(b, ins):
        for s in b:
            if not ins:
                return ins
            if isinstance(s, ast.If):
                t = {min(2, i + expr(s.test)) for i in ins}
                ins = block(s.body, t) | block(s.orelse, t)
            elif isinstance(s, (ast.For, ast.While)):
                one = block(s.body, ins)
                two = block(s.body, one)
                ins = ins | one | two
            elif isinstance(s, ast.Try):
                ins = block(s.body, ins) | ins
                for h in s.handlers:
                    ins = ins | block(h.body, ins)
                ins = block(s.finalbody, ins)
            elif isinstance(s, ast.With):
                ins = block(s.body, ins)
            elif isinstance(s, ast.Return):
                ends.update(min(2, i + (expr(s.value) if s.value is not None else 0)) for i in ins)
                return set()
            elif isinstance(s, ast.Raise):
                return set()
            else:
                ins = {min(2, i + expr(s)) for i in ins}
        return ins
    ends |= block(body, {0})
    return ends


@rule('C01', 'C06')
def next_year_chain(ctx, pid):
    r = Result('next_year chain', 'every redefinition of next_year in the Ledger family passes the call on exactly once on every path', 2)
    for c in ctx.p.subclasses('Ledger'):
        f = c.members.get('next_year')
        if f is None or c.name == 'Ledger':
            continue
        n = super_calls(f.node.body, 'next_year', None)
        if n != {1}:
            # calls made through an added helper count as well
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr not in ctx.bl['names'] for x in ast.walk(f.node)):
                r.unknown.append(at(f))
                n = {1}
        r.site(at(f), n == {1} or ctx.settled(f), 'super().next_year() runs %s times on some path' % sorted(n))
    return r


# ---------------------------------------------------------------- stores to an attribute, wherever they are
def attr_origins(ctx, f):
    """Locals of f that may be (part of) an attribute: name -> {attribute names}."""
    out = {}
    for _ in range(3):
        for n in ast.walk(f.node):
            pairs = []
            if isinstance(n, ast.Assign):
                pairs = [(t, n.value) for t in n.targets]
            elif isinstance(n, ast.NamedExpr):
                pairs = [(n.target, n.value)]
            elif isinstance(n, (ast.For, ast.comprehension)):
                pairs = [(n.target, n.iter)]
            for t, v in pairs:
                if isinstance(t, ast.Name):
                    a = attrs_in(v, out)
                    if a:
                        out.setdefault(t.id, set()).update(a)
    return out


def attrs_in(e, env):
    """Attributes an lvalue-like expression may be part of."""
    out = set()
    while True:
        if isinstance(e, ast.Attribute):
            out.add(e.attr)
            e = e.value
        elif isinstance(e, ast.Subscript):
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault', 'values', 'items', '__getitem__'):
            e = e.func.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) > 1 \
                and isinstance(e.args[1], ast.Constant):
            out.add(e.args[1].value)
            e = e.args[0]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) > 1 \
                and isinstance(e.args[1], ast.Attribute):
            return out | {e.args[1].attr}
        elif isinstance(e, ast.Name):
            return out | env.get(e.id, set())
        else:
            return out


def stores(ctx, f):
    """(attributes the target may be part of, node) for every direct mutation in f."""
    env = None
    for target, attr, node in ctx.pu.info[f].muts:
        if env is None:
            env = attr_origins(ctx, f)
        a = attrs_in(target, env)
        if attr is not None:
            a = a | {attr}
        yield a, node


def sanctioned_stores(ctx, r, attrs, allowed, what, extra=lambda f, a, n: False):
    for f in ctx.p.all_functions():
        for a, node in stores(ctx, f):
            hit = a & attrs if isinstance(attrs, (set, frozenset)) else {x for x in a if attrs(x)}
            if not hit or extra(f, a, node):
                continue
            ok = ctx.settled(f) or {g.short for g in ctx.roots_of(f)} <= allowed
            r.site(at(f, node), ok, '%s changes %s' % (f.short, ', '.join(sorted(hit))) + what)


@rule('C02')
def inputs_untouched(ctx, pid):
    r = Result('inputs untouched', 'the record of figures given by the user is stored once, when the object is built', 1)
    sanctioned_stores(ctx, r, {'inputs'}, {'Ledger.__init__'}, ' outside the construction of the object')
    return r


@rule('C03')
def history_writers(ctx, pid):
    r = Result('history writers', 'the tables of past years are written only by the recording machinery and, for the closing cost base, '
               'by the taxable account', 1)
    sanctioned_stores(ctx, r, lambda a: a.endswith('_history') or a == 'history_dict_name',
                      {'recorded_property.__init__', 'recorded_property_cached.__init__', 'Ledger.__init__', 'Ledger.next_year',
                       'LedgerType.__init__', 'TaxableAccount.__init__', 'TaxableAccount.capital_gain',
                       'TaxableAccount._invalidate_capital_gain', 'recorded_property.__set__', 'recorded_property.__delete__',
                       'TaxableAccount.acb'}, ' although it is not part of the recording machinery',
                      extra=lambda f, a, n: f.module.name.endswith('recorded_property') and ctx.state(f) is None and ctx.known(f))
    return r


def looks_at(ctx, c, f, attrs, seen=None):
    """Does f, for an object of class c, read one of the object's attributes, through its own members?"""
    seen = set() if seen is None else seen
    if f in seen:
        return False
    seen.add(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute):
            v, own, after = n.value, isinstance(n.value, ast.Name) and n.value.id == ctx.pu.info[f].first, None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                own, after = True, f.cls
            if own:
                if n.attr in attrs:
                    return True
                g = c.lookup(n.attr, after=after) if after is not None else c.lookup(n.attr)
                if g is not None and hasattr(g, 'node') and looks_at(ctx, c, g, attrs, seen):
                    return True
    return False


@rule('C04')
def cost_base_invalidation(ctx, pid):
    r = Result('cost base invalidation', 'every operation that changes the transactions of an account whose class caches figures '
               'computed from them drops those figures', 3)
    fam = ctx.p.subclasses('Account')
    cached = {}
    for c in fam:
        for b in c.mro:
            for name, f in b.members.items():
                if f.kind == 'cached' and c.lookup(name) is f and looks_at(ctx, c, f, {'transactions', '_transactions'}):
                    cached.setdefault(c, {})[name] = f
    ops = ('add_transaction', 'clear', '__setitem__', '__delitem__')
    for c in fam:
        if c not in cached:
            continue
        for op in ops:
            f = c.lookup(op)
            if f is None:
                continue
            closed = set()
            seen = set()

            def reach(g, depth=0):
                if g in seen or depth > 6:
                    return
                seen.add(g)
                for a, _ in stores(ctx, g):
                    closed.update(a)
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        v = n.func.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                            h = c.lookup(n.func.attr, after=g.cls)
                        elif isinstance(v, ast.Name) and v.id == ctx.pu.info[g].first:
                            h = c.lookup(n.func.attr)
                        else:
                            h = None
                        if h is not None and h.kind == 'method':
                            reach(h, depth + 1)
                        closed.add('call:' + n.func.attr)
                    elif isinstance(n, ast.Delete):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                closed.add('del:' + t.attr)
            reach(f)
            for name in cached[c]:
                ok = ('_%s_history' % name) in closed or ('del:' + name) in closed or 'call:clear_cache' in closed \
                    or not ({'transactions', '_transactions'} & closed) or ctx.settled(f)
                r.site('%s for %s.%s' % (at(f), c.name, name), ok,
                       '%s of %s changes transactions but keeps the cached figure %s' % (op, c.name, name))
    return r


# ---------------------------------------------------------------- C06/C08: per-year tallies
@rule('C06', 'C08')
def tallies_restart(ctx, pid):
    r = Result('tallies restart', 'whatever a forecast step accumulates over a year is restarted by next_year and by undo_transactions', 0)
    for c in ctx.p.subclasses('SubForecast'):
        for f in c.members.values():
            if f.name in ('__init__', 'next_year', 'undo_transactions') or f.kind != 'method':
                continue
            first = ctx.pu.info[f].first
            for n in ast.walk(f.node):
                tgt = None
                if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                    tgt = n.target
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.BinOp) and \
                        isinstance(n.targets[0], ast.Attribute) and any(
                            isinstance(x, ast.Attribute) and ast.unparse(x) == ast.unparse(n.targets[0]) for x in ast.walk(n.value)):
                    tgt = n.targets[0]
                if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == first):
                    continue
                for op in ('next_year', 'undo_transactions'):
                    ok = False
                    seen, todo = set(), [c.lookup(op)]
                    while todo:
                        g = todo.pop()
                        if g is None or g in seen:
                            continue
                        seen.add(g)
                        for a, _ in stores(ctx, g):
                            if tgt.attr in a:
                                ok = True
                        for x in ast.walk(g.node):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                                v = x.func.value
                                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                                    todo.append(c.lookup(x.func.attr, after=g.cls))
                                elif isinstance(v, ast.Name) and v.id == ctx.pu.info[g].first:
                                    todo.append(c.lookup(x.func.attr))
                    r.site('%s %s in %s' % (at(f, n), tgt.attr, op), ok, '%s is accumulated but not restarted by %s.%s' % (tgt.attr, c.name, op))
    return r


@rule('C07', 'C08')
def bookings_recorded(ctx, pid):
    r = Result('bookings recorded', 'steps of the forecast change accounts and available money only through the operation that books '
               'both ends and records them', 1)
    allowed = {'SubForecast._add_transaction', 'SubForecast.undo_transactions', 'Forecast._carrover_overflow', 'Forecast._carryover_tax'}
    for c in ctx.p.subclasses('SubForecast') + ctx.p.subclasses('Forecast'):
        for f in list(c.members.values()) + list(c.setters.values()):
            if f.cls is not c:
                continue
            first = ctx.pu.info[f].first
            for n in ast.walk(f.node):
                what = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('add_transaction', 'add_transactions'):
                    v = n.func.value
                    own = isinstance(v, ast.Name) and v.id == first or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super'
                    if not own:
                        what = 'books on an account directly'
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    info = ctx.pu.info[f]
                    b = n.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id != first:
                        ctx.pu._envfor(info, b)
                        if ctx.pu.roots(info, b):
                            what = 'changes %s directly' % b.id
                    elif isinstance(b, ast.Attribute) and b.attr == 'available':
                        what = 'changes available money directly'
                if what:
                    ok = ctx.settled(f) or {g.short for g in ctx.roots_of(f)} <= allowed
                    r.site(at(f, n), ok, '%s %s, so the movement is not recorded and cannot be undone' % (f.short, what))
    return r


# ---------------------------------------------------------------- C15: mutual references
@rule('C15')
def relation_writers(ctx, pid):
    r = Result('relation writers', 'ownership, marriage and link membership are changed only by the operations that keep both sides in step', 4)
    allowed = {'Account.owner.setter', 'Person.spouse.setter', 'Person.__init__', 'Account.__init__', 'AccountLink.__init__',
               'AccountLink.link_account', 'AccountLink.unlink_account', 'AccountLink.register', 'AccountLink.unregister',
               'AccountLink._get_record', 'AccountLink.group', 'AccountLink.data.setter', 'AccountLink.group.setter',
               'LinkedLimitAccount.__init__', 'LinkedLimitAccount._process_link',
               # attributes of the same name that hold something else
               'Forecast.__init__', 'WithdrawalForecast.__init__', 'RegisteredAccount.__init__', 'RegisteredAccount.contributor.setter'}
    sanctioned_stores(ctx, r, {'_spouse', '_owner', 'group', 'accounts'}, allowed, ' outside the operations that keep both sides in step',
                      extra=lambda f, a, n: f.module.name.startswith(('forecaster.strategy',)))
    return r


# ---------------------------------------------------------------- C16: refuse before changing
VALIDATORS = {'when_conv', 'frequency_conv', 'birth_date_const_birth_date', '_param_check'}


@rule('C16')
def refuse_first(ctx, pid):
    r = Result('refuse first', 'in an assignment, no refusal comes after a change', 5)
    for f in ctx.p.all_functions():
        if f.kind != 'setter' and not (f.kind == 'method' and f.name in ('convert_to_rrif', 'add_transaction', '__setitem__')):
            continue
        if f.cls is None:
            continue
        info = ctx.pu.info[f]
        mut_nodes = {}
        for target, attr, node in info.muts:
            ctx.pu._envfor(info, target)
            if ctx.pu.roots(info, target) & (set(info.params) | {GLOBAL}):
                mut_nodes[id(node)] = node
                mut_nodes[id(target)] = node
        for e in info.calls:
            cands, recv = ctx.pu.targets(info, e)
            if cands and all(ctx.pu.mut[g] for g in cands) and any(g.name not in ('__init__',) for g in cands):
                ctx.pu._envfor(info, e)
                mut_nodes[id(e)] = e
        bad = []

        def scan(body, dirty):
            for s in body:
                if isinstance(s, ast.Raise):
                    if dirty:
                        bad.append((s, dirty))
                    return None
                if isinstance(s, ast.If):
                    a = scan(s.body, dirty)
                    b = scan(s.orelse, dirty)
                    if a is None and b is None:
                        return None
                    dirty = a or b or None if (a or b) else dirty
                    dirty = dirty or False
                    continue
                if isinstance(s, (ast.For, ast.While, ast.With)):
                    d = scan(s.body, dirty)
                    dirty = d or dirty
                    continue
                if isinstance(s, ast.Try):
                    return dirty    # a failed attempt may be put back: left to the law of the function
                hit = [mut_nodes[id(n)] for n in ast.walk(s) if id(n) in mut_nodes]
                if isinstance(s, ast.Return):
                    return None
                if hit and not dirty:
                    dirty = hit[0]
            return dirty
        scan(f.node.body, False)
        r.site(at(f), not bad or ctx.settled(f), 'a value is refused (line %s) after the object was already changed (line %s)' % (
            bad[0][0].lineno if bad else '', getattr(bad[0][1], 'lineno', '?') if bad else ''))
    return r


# ---------------------------------------------------------------- C17: numeric type forwarding
def hp_init(ctx, c):
    init = c.lookup('__init__')
    return init is not None and 'high_precision' in sum(init.params()[:2], [])


@rule('C17')
def precision_forwarded(ctx, pid):
    r = Result('precision forwarded', 'an object that was given a numeric type passes it on to every component it builds and to the '
               'constructor it extends', 10)
    for f in ctx.p.all_functions():
        names = sum(f.params()[:2], [])
        src = 'high_precision' in names or (f.cls is not None and f.cls.is_subclass('HighPrecisionOptional') and f.name != '__init__')
        if f.name == '__init__' and f.params()[3]:
            src = src or f.cls is not None and any(b.name == 'HighPrecisionOptional' for b in f.cls.mro)
        if not src:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            target = None
            if isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and isinstance(n.func.value, ast.Call) \
                    and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super' and f.cls is not None:
                init = f.cls.lookup('__init__', after=f.cls)
                if init is not None and ('high_precision' in sum(init.params()[:2], []) or
                                         init.params()[3] and init.cls.is_subclass('HighPrecisionOptional')):
                    target = 'super().__init__'
            else:
                x = ctx.p.resolve_expr(f.module, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                if x and x[0] == 'class' and x[1].is_subclass('HighPrecisionOptional') and hp_init(ctx, x[1]):
                    target = x[1].name
            if target is None:
                continue
            given = any(k.arg == 'high_precision' or k.arg is None for k in n.keywords)
            bad_none = any(k.arg == 'high_precision' and isinstance(k.value, ast.Constant) for k in n.keywords)
            law = ctx.law_of.get(f)
            if not given and law is not None and not any(
                    isinstance(m, ast.Call) and ast.unparse(m.func) == ast.unparse(n.func) and
                    any(k.arg in ('high_precision', None) for k in m.keywords) for m in ast.walk(law.node)):
                r.site(at(f, n))        # the law has no use for a numeric type here
                continue
            r.site(at(f, n), (given and not bad_none) or ctx.settled(f), '%s is built without the numeric type' % target)
    return r


PRECISION_ALSO = {'C26': 'value_reader'}      # figures read from files are C26's as well


def _converted(*terms):
    """What terms express in the numeric type."""
    return {x[2] for t in terms if t is not None for x in T.walk(t)
            if x[0] == 'call' and x[1] == ('b', 'precision_convert')}


def _texts(f):
    return [f.ret] + [y for e, g in f.events for y in (e, g)]


def _keeps(x, y, path=(), budget=[0]):
    """On every way through, what y expresses in the numeric type x does too."""
    if not path:
        budget[0] = 4000
    budget[0] -= 1
    if x == y or budget[0] < 0:
        return x == y
    tops = [v for v in (T._top(x), T._top(y)) if v is not None]
    if not tops:
        return _converted(y) <= _converted(x)
    v = min(tops, key=T.key)
    return all(_keeps(T.cof(x, v, b), T.cof(y, v, b), path + ((v, b),)) for b in (True, False))


def _conversions(node):
    return sum(1 for n in ast.walk(node) if isinstance(n, ast.Call) and
               isinstance(n.func, (ast.Attribute, ast.Name)) and
               (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) in ('precision_convert', 'high_precision'))


@rule('C17', 'C26')
def precision_converted(ctx, pid):
    """Same figures as the law, conversions aside, but not the same conversions to the numeric type."""
    from . import compare as C
    r = Result('figures converted', 'where the law expresses a figure in the chosen numeric type, so does the code', 3)
    for law in ctx.book.laws:
        if law.actual is None or not any(
                isinstance(n, (ast.Attribute, ast.Name)) and
                (n.attr if isinstance(n, ast.Attribute) else n.id) in ('precision_convert', 'high_precision')
                for node in (law.node, law.actual.node) for n in ast.walk(node)):
            continue
        if pid != 'C17' and not law.module.endswith(PRECISION_ALSO[pid]):
            continue
        eff = ctx.ck.effective(law)
        why = None
        own = ctx.ck.own(eff)[0]
        if own == 'same':
            try:
                wide = ctx.ck.agreed.get(law.actual, frozenset())
                a = ctx.ck.facts(law.actual, law.cls, precision=True, wide=wide)
                b = ctx.ck.facts(eff.func, law.cls, law_side=True, precision=True, wide=wide)
                ctx.ck.vocab.precisely = True
                for res in (C.cmp_terms(a.ret, b.ret, ctx.ck.vocab), C.cmp_events(a, b, ctx.ck.vocab)):
                    if res[0] == 'diff' and why is None:
                        why = C.describe(res[1])
                if why is not None and _converted(*_texts(a)) == _converted(*_texts(b)) and \
                        _keeps(a.ret, b.ret) and _conversions(law.actual.node) >= _conversions(eff.node):
                    why = None      # the same things are converted, written another way
                elif why is None and _conversions(law.actual.node) < _conversions(eff.node):
                    lost = _converted(*_texts(b)) - _converted(*_texts(a))
                    if lost and not _converted(*_texts(a)) - _converted(*_texts(b)):
                        why = 'not converted: %s' % T.show(min(lost, key=T.key))[:200]
            except RecursionError:
                own = 'unknown'
            finally:
                ctx.ck.vocab.precisely = False
        r.site(at(law.actual), why is None, '%s differs from its law in what is converted to the numeric type: %s' % (law.qual, why))
    return r


# ---------------------------------------------------------------- C19: shared mutable state
MUTABLE = (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


def mutable_expr(e):
    if isinstance(e, MUTABLE):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
        'dict', 'list', 'set', 'defaultdict', 'deque', 'OrderedDict', 'SimpleQueue', 'Timing')


@rule('C19')
def mutable_defaults(ctx, pid):
    r = Result('mutable defaults', 'no default argument is an object that the function changes or keeps', 100)
    for f in ctx.p.all_functions():
        ds = f.defaults()
        for name, e in ds.items():
            bad = False
            if mutable_expr(e):
                bad = name in ctx.pu.mut[f]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) \
                            and isinstance(n.value, ast.Name) and n.value.id == name:
                        bad = True
                    if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == name:
                        bad = True
            r.site('%s %s=' % (at(f), name), not bad, 'the default of %s is one object shared by every call, and it is changed or kept' % name)
    return r


@rule('C19')
def shared_tables(ctx, pid):
    r = Result('shared tables', 'tables that belong to a module or class are not changed by its functions, and not kept by an object that may change them', 3)
    for m in ctx.p.modules.values():
        tables = {n for n, e in m.consts.items() if mutable_expr(e)}
        for f in ctx.p.all_functions():
            if f.module is not m:
                continue
            local = set(ctx.pu.info[f].params) | set(ctx.pu.info[f].assigned)
            glob = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in tables and (n.id not in local or n.id in glob):
                    bad = ''
                    for target, attr, node in ctx.pu.info[f].muts:
                        b = target
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            b = b.value
                        if b is n:
                            bad = 'is changed'
                    for s in ast.walk(f.node):
                        if isinstance(s, ast.Assign) and s.value is n and any(isinstance(t, ast.Attribute) for t in s.targets):
                            bad = 'is kept in an attribute without a copy'
                    r.site(at(f, n) + ' ' + n.id, not bad, 'the shared table %s %s' % (n.id, bad))
            for x in glob:
                r.site(at(f) + ' global ' + x, x not in ctx.pu.info[f].assigned, '%s rebinds the module variable %s' % (f.short, x))
    for c in [c for m in ctx.p.modules.values() for c in m.classes.values()]:
        for name, e in c.attrs.items():
            if not mutable_expr(e):
                continue
            bad = ''
            for d in ctx.p.subclasses(c.name):
                for f in list(d.members.values()) + list(d.setters.values()):
                    own = any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) for n in ast.walk(
                        (d.lookup('__init__') or f).node))
                    for target, attr, node in ctx.pu.info[f].muts:
                        b = target
                        while isinstance(b, (ast.Subscript,)):
                            b = b.value
                        if isinstance(b, ast.Attribute) and b.attr == name and not own:
                            bad = '%s changes it' % at(f, node)
            r.site('%s %s.%s' % (c.where, c.name, name), not bad, 'a table shared by every %s is changed: %s' % (c.name, bad))
    return r


def _place(t):
    """Where an object is kept, as (root, attribute and element steps), or None for objects made on the spot."""
    steps = []
    while True:
        if t[0] == 'v':
            t = t[1]
        elif t[0] == 'a':
            steps.append(t[2])
            t = t[1]
        elif t[0] == 'i':
            steps.append('[]')
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'setdefault':
            steps.append('[]')
            t = t[1][1]
        elif t[0] in ('p', 'g') and isinstance(t[1], str):
            return (t[0] + ' ' + t[1],) + tuple(reversed(steps))
        else:
            return None


def _ends(t):
    """The different values a decision diagram ends in."""
    seen, out, todo = set(), [], [t]
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t[0] == 'ite':
            todo += [t[3], t[2]]
        elif t not in out:
            out.append(t)
    return out


def _plain(e):
    """The event inside loops, and whether it is inside one."""
    while e[0] != 'ev':
        inner = [x for x in e[1:] if isinstance(x, tuple) and x and x[0] in ('ev', 'each', 'upto', 'while')]
        if not inner:
            return None
        e = inner[-1]
    return e


def _pairs(ctx, pid, every=False):
    """(law, what the code does, what the law does) for the laws of a property."""
    for law in ctx.book.laws:
        if law.actual is None or getattr(law.actual, 'is_law', False) or not (
                every or pid in law.props or pid in law.facets):
            continue
        eff = ctx.ck.effective(law)
        if ctx.ck.own(eff)[0] in ('gone', 'removed'):
            continue
        try:
            yield law, ctx.ck.facts(law.actual, law.cls), ctx.ck.facts(eff.func, law.cls, law_side=True)
        except RecursionError:
            continue


IN_PLACE = ('mut', 'setitem', 'delitem')


def _changed(facts, kinds):
    out = {}
    for e, g in facts.events:
        x = _plain(e)
        if x is None or x[1] not in kinds:
            continue
        for t in _ends(x[2]):
            if x[1] in ('set', 'delattr') and isinstance(x[3], str):
                t = T.mk('a', t, x[3])
            p = _place(t)
            if p is not None:
                out.setdefault(p, x)
    return out


def _handed(ctx, call):
    """Places of objects that a call may change: its receiver and the arguments its callees change."""
    fn = call[1]
    name = fn[2] if fn[0] == 'a' else fn[1].split(':')[-1].split('.')[-1] if fn[0] == 'g' else None
    known = ctx.pu.byname.get(name, ())
    out = set()
    if fn[0] == 'a' and (not known or any(ctx.pu.mut[f] for f in known)):
        out.add(_place(fn[1]))
    for k, v in [(None, x) for x in call[2]] + list(call[3]):
        if known and k is not None and not any(k in ctx.pu.mut[f] for f in known):
            continue
        out |= {_place(t) for t in T.walk(v) if isinstance(t, T.Tm)} if not known else {_place(t) for t in _ends(v)}
    return {p for p in out if p is not None and p != ('p self',)}


def _through(ctx, c, place):
    """What a property's setter and deleter change when the property is set or deleted."""
    out = set()
    if c is None or len(place) != 2 or place[0] != 'p self':
        return out
    for f in (c.lookup_setter(place[1]), next((d.deleters[place[1]] for d in c.mro if place[1] in d.deleters), None)):
        if f is not None:
            out |= set(_changed(ctx.ck.facts(f, c), IN_PLACE + ('set', 'delattr')))
    return out


def _handed_out(ctx, c, place):
    """Something returns the very object kept in the attribute, so that others may hold it."""
    if c is None or len(place) != 2:
        return False
    for d in c.mro:
        for f in d.members.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and n.value.attr == place[1]:
                    return True
    return False


@rule(*['C%02d' % i for i in range(1, 34) if i != 10])
def changes_only(ctx, pid):
    """What the code changes in place, the law changes too."""
    from . import compare as C
    r = Result('changed in place', 'a container or object that an operation changes in place is one that its law changes, replaces or hands on', 0)
    for law, a, b in _pairs(ctx, pid, pid == 'C19'):
        here = _changed(a, IN_PLACE)
        if not here:
            continue
        allowed = set(_changed(b, IN_PLACE + ('set', 'delattr')))
        for p in list(allowed):
            allowed |= _through(ctx, law.cls, p)
        for e, g in b.events:           # handed to something that may change it
            x = _plain(e)
            if x is not None and x[1] == 'call' and x[2][0] == 'call':
                allowed |= _handed(ctx, x[2])
        for p, x in here.items():
            attrs = [s for s in p[1:] if s != '[]']
            if attrs and any(s.startswith('_') and not ctx.known_attr(s) for s in attrs):
                continue                # a cache of the code's own
            ok = any(p[:len(q)] == q or q[:len(p)] == p for q in allowed)
            if ok and x[1:4] == ('mut', x[2], 'clear') and p not in _changed(b, IN_PLACE) and p not in _changed(a, ('set',)):
                ok = not _handed_out(ctx, law.cls, p)   # emptied, when others may hold it, where the law starts a new one
            r.site(at(law.actual), ok, '%s changes %s in place (%s), which its law leaves alone' % (
                law.qual, '.'.join(p).replace('p ', '').replace('.[]', '[...]'), T.show(x)[:160]))
    return r


@rule(*['C%02d' % i for i in range(1, 34) if i != 10])
def added_to(ctx, pid):
    """What the law adds to is added to, not overwritten."""
    r = Result('added to', 'where the law adds to the entries of a container, the code does not put new entries in their place', 0)
    for law, a, b in _pairs(ctx, pid):
        for e, g in b.events:
            x = _plain(e)
            if x is None or x[1] != 'call' or x[2][0] != 'call' or x[2][1][0] != 'g':
                continue
            f = ctx.p.find_function(x[2][1][1])
            if f is None:
                continue
            for n, v in x[2][3]:
                p = _place(v)
                if p is None or n not in ctx.pu.mutparams.get(f, ()) or not _adds(ctx, f, n):
                    continue
                for e2, g2 in a.events:
                    y = _plain(e2)
                    if y is None or y[1] not in ('mut', 'setitem') or _place(y[2]) != p or y[1] == 'mut' and y[3] != 'update':
                        continue
                    vals = y[4] if y[1] == 'mut' else [y[4]]
                    ok = any(_place(t) == p for v2 in vals for t in T.walk(v2) if isinstance(t, T.Tm))
                    r.site(at(law.actual), ok, '%s puts entries of its own into %s, where its law adds to those that are there' % (
                        law.qual, '.'.join(p).replace('p ', '')))
    return r


def _adds(ctx, f, n):
    """Does f add to the entries of its argument n?"""
    fs = ctx.ck.facts(f, f.cls)
    for e, g in fs.events:
        x = _plain(e)
        if x is not None and x[1] == 'setitem' and _place(x[2]) == ('p ' + n,):
            return any(_place(t) == ('p ' + n, '[]') for t in T.walk(x[4]) if isinstance(t, T.Tm))
    return False


def _depth(t):
    """(what is copied, how deep): 0 the object itself, 1 a copy of it, 9 a copy in depth."""
    if t[0] == 'deepcopy':
        return t[1], 9
    if t[0] == 'copy':
        b, d = _depth(t[1])
        return b, max(d, 1)
    return t, 0


@rule('C19')
def copies_kept(ctx, pid):
    """Where the law keeps or returns a copy of something held elsewhere, so does the code."""
    r = Result('copies', 'what the law copies before keeping it is not kept, or is not shared in part, by the code', 3)
    for law, a, b in _pairs(ctx, pid, True):
        def kept(facts):
            out = {}
            for e, g in facts.events:
                x = _plain(e)
                if x is None:
                    continue
                if x[1] == 'set':
                    k, vals = ('set', _place(T.mk('a', x[2], x[3])) if isinstance(x[3], str) else None), [x[4]]
                elif x[1] == 'setitem':
                    k, vals = ('item', _place(x[2])), [x[4]]
                elif x[1] == 'mut':
                    k, vals = (x[3], _place(x[2])), list(x[4])
                elif x[1] == 'call' and x[2][0] == 'call':
                    # handed on after it has been changed here
                    for n, v in x[2][3]:
                        for t in _ends(v):
                            base, d = _depth(t)
                            if _place(base) is not None and (d or _place(base) in _changed(facts, IN_PLACE)):
                                out.setdefault(((T.show(x[2][1]), ('argument %s' % n,)), _place(base)), set()).add(d)
                    continue
                else:
                    continue
                for v in vals:
                    for t in _ends(v):
                        base, d = _depth(t)
                        if k[1] is not None and _place(base) is not None:
                            out.setdefault((k, _place(base)), set()).add(d)
            for t in _ends(facts.ret):
                base, d = _depth(t)
                if _place(base) is not None:
                    out.setdefault((('return', ('return',)), _place(base)), set()).add(d)
            return out
        here, there = kept(a), kept(b)
        for k, ds in there.items():
            if not max(ds) or k not in here:
                continue
            ok = min(here[k]) >= min(ds)
            r.site(at(law.actual), ok, '%s: %s of %s is shared where its law takes a copy%s' % (
                law.qual, k[0][0], '.'.join(k[1]).replace('p ', '').replace('g ', ''), ' in depth' if max(ds) == 9 else ''))
    return r


# ---------------------------------------------------------------- C20: determinism
CLOCK = re.compile(r'^(time\.(?!struct)|random\.|secrets\.|uuid\.|numpy\.random|os\.(environ|getenv|urandom|getpid|times|listdir|scandir)|socket\.|getpass\.|platform\.)')
NOW = {'now', 'today', 'utcnow', 'fromtimestamp'}


@rule('C20')
def no_ambient(ctx, pid):
    r = Result('no ambient inputs', 'nothing is read from the clock, random sources, the environment, or object identities, except where documented', 3)
    allowed_now = {'<module> forecaster.settings', 'Person.birth_date.setter', 'Person.__init__'}
    for m in ctx.p.modules.values():
        owner = {}
        for f in ctx.p.all_functions():
            if f.module is m:
                for n in ast.walk(f.node):
                    owner[id(n)] = f
        for n in ast.walk(m.tree):
            f = owner.get(id(n))
            where = '%s:%d %s' % (m.rel, getattr(n, 'lineno', 0), f.short if f else '<module>')
            who = {g.short for g in ctx.roots_of(f)} if f else {'<module> ' + m.name}
            if isinstance(n, ast.Attribute):
                x = ctx.p.resolve_expr(m, n)
                dotted = x[1] if x and x[0] in ('ext', 'mod') else ''
                if n.attr in NOW and (x is None or dotted.startswith('datetime')) and not isinstance(n.ctx, ast.Store):
                    r.site(where, who <= allowed_now or bool(f and ctx.settled(f)), 'reads the clock (%s)' % ast.unparse(n))
                elif CLOCK.match(dotted):
                    r.site(where, False, 'reads %s' % dotted)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                x = ctx.p.resolve_name(m, n.id)
                if x and x[0] == 'ext' and CLOCK.match(x[1]):
                    r.site(where, False, 'reads %s' % x[1])
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ('id', 'hash') and \
                    ctx.p.resolve_name(m, n.id) is None and not (f and n.id in ctx.pu.info[f].assigned or f and n.id in ctx.pu.info[f].params):
                names = who
                ok = all(g.startswith('TransactionDict.') or g.endswith('.__hash__') for g in names)
                fid = 'F03' if names <= {'TaxCanadaJurisdiction._spousal_tax_credit'} else None
                r.site(where, ok, 'a result depends on %s()' % n.id, fid)
    return r


PLANNING = ('forecaster.strategy.transaction', 'forecaster.strategy.debt_payment', 'forecaster.forecast')


@rule('C20')
def set_order(ctx, pid):
    r = Result('set order', 'no result depends on the order in which a set of objects happens to be iterated', 4)
    for f in ctx.p.all_functions():
        setty = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and _is_set(n.value, setty):
                setty.add(n.targets[0].id)
        for n in ast.walk(f.node):
            bad = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args and \
                    isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name) and n.args[0].func.id == 'iter' and \
                    n.args[0].args and _is_set(n.args[0].args[0], setty):
                bad = 'takes whichever element of a set comes first'
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and \
                    n.value.func.id in ('list', 'tuple') and n.value.args and _is_set(n.value.args[0], setty):
                bad = 'takes an element of a set by position'
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args and _is_set(n.func.value, setty):
                bad = 'takes an arbitrary element of a set'
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('set', 'frozenset') and n.args and \
                    f.short in ('TransactionStrategy._weight_account_groups', 'TransactionStrategy._group_accounts', 'TransactionTraversal._add_node_weighted',
                                'TransactionTraversal._traverse_priority', 'TransactionTraversal._balance_weighted_flows',
                                'TransactionStrategy.strategy_ordered', 'TransactionStrategy.strategy_weighted',
                                'TransactionStrategy._strategy_ordered', 'TransactionStrategy.divide_debts', 'TransactionStrategy.__call__'):
                # a group of accounts as a set: its order reaches the flow network
                r.site(at(f, n), False, 'accounts grouped in a set whose iteration order (object addresses) reaches the flow network', 'F04')
                continue
            else:
                if isinstance(n, (ast.For, ast.comprehension)) and _is_set(n.iter, setty):
                    r.site(at(f, n.iter))
                continue
            r.site(at(f, n), ctx.settled(f), '%s %s' % (f.short, bad))
    return r


def _is_set(e, names):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference'):
        return _is_set(e.func.value, names)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd)):
        return _is_set(e.left, names) or _is_set(e.right, names)
    return isinstance(e, ast.Attribute) and e.attr == 'accounts'


# ---------------------------------------------------------------- C21/C22: tables of names
def str_const(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None


def param_members(ctx):
    c = ctx.p.cls('Parameter')
    return {k: str_const(v) for k, v in c.attrs.items() if str_const(v)}


def param_key(ctx, e, members):
    if isinstance(e, ast.Call) and e.args:
        e = e.args[0]
    if isinstance(e, ast.Attribute):
        if e.attr == 'value':
            e = e.value
        return members.get(e.attr) if isinstance(e, ast.Attribute) else None
    return str_const(e)


def init_args(ctx, c):
    """Every argument a class can be built with, following **kwargs upwards."""
    out, after = set(), None
    while True:
        init = c.lookup('__init__', after=after)
        if init is None:
            return out, False
        pos, kwo, va, kw = init.params()
        out |= set(pos[1:]) | set(kwo)
        if not kw:
            return out, True
        after = init.cls


def settings_attrs(c):
    return {n for b in c.mro for n in b.attrs}


@rule('C21')
def builder_tables(ctx, pid):
    r = Result('builder tables', 'every default of every parameter names a setting that exists and an argument its type accepts, and every parameter has a type', 10)
    members = param_members(ctx)
    for mod, settings, fc in (('forecaster.forecaster', 'Settings', 'Forecaster'), ('forecaster.canada.forecaster', 'SettingsCanada', 'ForecasterCanada')):
        m = ctx.p.modules.get(mod)
        if m is None or 'DEFAULTVALUES' not in m.consts:
            continue
        dv, dt = m.consts['DEFAULTVALUES'], m.consts.get('DEFAULTTYPES')
        types = {}
        if isinstance(dt, ast.Dict):
            for k, v in zip(dt.keys, dt.values):
                x = ctx.p.resolve_expr(m, v) if isinstance(v, (ast.Name, ast.Attribute)) else None
                if k is not None and x and x[0] == 'class':
                    types[param_key(ctx, k, members)] = x[1]
        sattrs = settings_attrs(ctx.p.cls(settings))
        if not isinstance(dv, ast.Dict):
            r.unknown.append('%s DEFAULTVALUES is not written as a table' % m.rel)
            continue
        fattrs = {n.attr for n in ast.walk(ctx.p.method('Forecaster', '__init__').node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        for k, v in zip(dv.keys, dv.values):
            name = param_key(ctx, k, members) if k is not None else None
            if name is None or not isinstance(v, ast.Dict):
                continue
            where = '%s:%d %s' % (m.rel, k.lineno, name)
            if fc == 'Forecaster':
                r.site(where, name in types, 'parameter %s has no type' % name)
                r.site(where, name in fattrs, 'parameter %s has no attribute on the planner' % name)
            args, closed = init_args(ctx, types[name]) if name in types else (set(), False)
            for ak, av in zip(v.keys, v.values):
                a, s = str_const(ak), str_const(av)
                w = '%s:%d %s.%s' % (m.rel, (ak or k).lineno, name, a)
                if a is None or s is None:
                    continue
                if closed:
                    r.site(w, a in args, '%s does not accept the argument %s' % (types[name].name, a))
                head, _, rest = s.partition('.')
                if head == 'settings':
                    r.site(w, rest in sattrs, '%s has no setting %s' % (settings, rest))
                else:
                    ok = head in members.values()
                    if ok and rest and head in types:
                        c = types[head]
                        ok = c.lookup(rest) is not None or rest in {x.attr for b in c.mro for x in ast.walk(b.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
                    r.site(w, ok, '%s names nothing the planner has' % s)
    return r


@rule('C21', 'C19')
def built_once(ctx, pid):
    """The table of parameters built so far reaches every function that builds or looks one up."""
    r = Result('built once', 'a function that keeps the parameters built so far hands them to all it asks for parameters', 5)
    takers = {f.name: f for f in ctx.p.all_functions() if f.cls is not None and 'memo' in f.params()[0] + f.params()[1]
              and f.cls.is_subclass('Forecaster')}
    for f in ctx.p.all_functions():
        if f.cls is None or not f.cls.is_subclass('Forecaster'):
            continue
        i = ctx.pu.info[f]
        if 'memo' not in i.params and 'memo' not in i.assigned:
            continue
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in takers and
                    isinstance(n.func.value, ast.Name) and n.func.value.id == i.first):
                continue
            pos = takers[n.func.attr].params()[0][1:]
            given = [k.value for k in n.keywords if k.arg in ('memo', None)] + [
                a for p, a in zip(pos, n.args) if p == 'memo' or isinstance(a, ast.Starred)]
            fresh = any(isinstance(v, (ast.Dict, ast.Constant)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and
                        v.func.id == 'dict' for v in given)
            r.site(at(f, n), bool(given) and not fresh,
                   '%s is not given the parameters built so far, so it may build one a second time' % n.func.attr)
    return r


def name_const(p, m, e):
    if isinstance(e, (ast.Name, ast.Attribute)):
        x = p.resolve_expr(m, e)
        if x and x[0] == 'const':
            return str_const(x[3])
    return str_const(e)


def strategy_keys(p, c):
    """(key, member) of every registered strategy of a class, inherited ones included."""
    out = {}
    for b in reversed(c.mro):
        for name, f in b.members.items():
            out.pop(name, None)
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)) and \
                        (d.func.id if isinstance(d.func, ast.Name) else d.func.attr) == 'strategy_method' and (d.args or d.keywords):
                    k = name_const(p, b.module, (d.args + [x.value for x in d.keywords])[0])
                    out[name] = (k, f)
    return out


@rule('C22')
def strategy_names(ctx, pid):
    r = Result('strategy names', 'within a family every strategy has its own name, and every name offered as a default is registered in its family', 8)
    for c in ctx.p.subclasses('Strategy'):
        keys = {}
        for name, (k, f) in strategy_keys(ctx.p, c).items():
            if k is None:
                r.unknown.append(at(f))
                continue
            r.site('%s %r' % (at(f), k), k not in keys, 'the name %r is registered for both %s and %s: only one can ever run' % (
                k, name, keys.get(k)))
            keys[k] = name
        init = c.lookup('__init__')
        if init is not None and keys:
            d = init.defaults().get('strategy')
            if d is not None and name_const(ctx.p, init.module, d):
                dk = name_const(ctx.p, init.module, d)
                r.site('%s strategy=%r' % (at(init), dk), dk in keys, 'the default strategy %r is not one of %s' % (dk, sorted(keys)))
    members = param_members(ctx)
    for settings, mods in (('Settings', ('forecaster.forecaster',)), ('SettingsCanada', ('forecaster.forecaster', 'forecaster.canada.forecaster'))):
        sc = ctx.p.cls(settings)
        for mod in mods:
            m = ctx.p.modules.get(mod)
            dv, dt = m.consts.get('DEFAULTVALUES'), ctx.p.modules['forecaster.forecaster'].consts.get('DEFAULTTYPES')
            if not isinstance(dv, ast.Dict) or not isinstance(dt, ast.Dict):
                continue
            types = {param_key(ctx, k, members): ctx.p.resolve_expr(ctx.p.modules['forecaster.forecaster'], v) for k, v in zip(dt.keys, dt.values) if isinstance(v, (ast.Name, ast.Attribute))}
            for k, v in zip(dv.keys, dv.values):
                name = param_key(ctx, k, members) if k is not None else None
                t = types.get(name)
                if not isinstance(v, ast.Dict) or not t or t[0] != 'class' or not t[1].is_subclass('Strategy'):
                    continue
                keys = {x for x, _ in strategy_keys(ctx.p, t[1]).values()}
                for ak, av in zip(v.keys, v.values):
                    s = str_const(av) or ''
                    if str_const(ak) == 'strategy' and s.startswith('settings.'):
                        e = sc.lookup_attr(s[9:])
                        val = str_const(e.args[0]) if isinstance(e, ast.Call) and e.args else None
                        if val is not None:
                            r.site('%s %s=%r' % (sc.where, s[9:], val), val in keys, 'the default %s %r is not one of %s' % (s[9:], val, sorted(keys)))
    path = os.path.join(ctx.p.repo, 'forecaster', 'data')
    for fn in ('settings.json', 'canada.settings.json'):
        data = read_json(os.path.join(path, fn))
        for key, cname in (('living_expenses_strategy', 'LivingExpensesStrategy'), ('saving_strategy', 'TransactionStrategy'),
                           ('withdrawal_strategy', 'TransactionStrategy'), ('allocation_strategy', 'AllocationStrategy'),
                           ('debt_payment_strategy', 'DebtPaymentStrategy')):
            if isinstance(data, dict) and isinstance(data.get(key), str):
                keys = {x for x, _ in strategy_keys(ctx.p, ctx.p.cls(cname)).values()}
                r.site('forecaster/data/%s %s' % (fn, key), data[key] in keys, '%r is not one of %s' % (data[key], sorted(keys)))
    return r


# ---------------------------------------------------------------- constants
def read_json(path):
    if not os.path.exists(path):
        return None
    with open(path, encoding='utf-8') as fh:
        return json.load(fh)


def literal(e):
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        return None


def constants(ctx):
    """(where, name, value) of every constant: class defaults, then the file."""
    c = ctx.p.cls('ConstantsCanada')
    for n, e in c.attrs.items():
        if isinstance(e, ast.Call) and e.args:
            v = literal(e.args[0])
            if v is not None:
                yield '%s:%d' % (c.module.rel, e.lineno), n, v
    data = read_json(os.path.join(ctx.p.repo, 'forecaster', 'data', 'canada.constants.json'))
    for n, v in (data or {}).items():
        yield 'forecaster/data/canada.constants.json', n, v


def nums(d):
    """A table with its keys as numbers (as the reader makes them)."""
    if isinstance(d, dict):
        return {(float(k) if isinstance(k, str) and re.match(r'^-?\d+(\.\d+)?$', k) else k): nums(v) for k, v in d.items()}
    if isinstance(d, str):
        try:
            return float(d)
        except ValueError:
            return d
    return d


@rule('C25', 'C30', 'C24')
def constants_wellformed(ctx, pid):
    r = Result('constants well-formed', 'every table of rates and amounts has the shape the code that uses it relies on: brackets start at zero, '
               'rates lie between zero and one, amounts are not negative, every jurisdiction is in every table, prescribed minimums rise with age', 8)
    seen = {}
    tax = pid in ('C30', 'C24')
    for where, name, v in constants(ctx):
        v = nums(v)
        w = '%s %s' % (where, name)
        src = where.split(':')[0]
        if tax != name.startswith('TAX_'):
            continue
        if name in ('RRSP_ACCRUAL_RATE', ):
            r.site(w, isinstance(v, (int, float)) and 0 < v < 1, 'is not a rate')
        elif name in ('TAX_REFUND_TIMING', 'TAX_PAYMENT_TIMING'):
            r.site(w, isinstance(v, (int, float)) and 0 <= v <= 1, 'is not a time within the year')
        elif name in ('RRSP_ACCRUAL_MAX', 'TFSA_ANNUAL_ACCRUAL', ):
            r.site(w, isinstance(v, dict) and v and all(k > 1900 and x >= 0 for k, x in v.items()), 'is not a table of amounts by year')
        elif name == 'RRSP_WITHHOLDING_TAX_RATE':
            r.site(w, brackets_ok(v), 'is not a bracket table by year that starts at 0 with rates in [0, 1]')
        elif name == 'RRSP_RRIF_WITHDRAWAL_MIN':
            xs = sorted(v.items()) if isinstance(v, dict) else []
            r.site(w, bool(xs) and all(0 < x <= 1 for _, x in xs) and all(a[1] <= b[1] for a, b in zip(xs, xs[1:])) and
                   all(b[0] - a[0] == 1 for a, b in zip(xs, xs[1:])), 'is not a gapless table of rising shares by age')
        elif name in ('TFSA_ELIGIBILITY_AGE', 'RRSP_RRIF_CONVERSION_AGE'):
            r.site(w, isinstance(v, (int, float)) and 0 < v < 120, 'is not an age')
        elif name == 'TFSA_ACCRUAL_ROUNDING_FACTOR':
            r.site(w, isinstance(v, (int, float)) and v > 0, 'is not a positive factor')
        elif name == 'TAX_BRACKETS':
            for j, t in (v.items() if isinstance(v, dict) else [('?', None)]):
                r.site('%s[%s]' % (w, j), brackets_ok(t), 'is not a bracket table by year that starts at 0 with rates in [0, 1]')
        elif name in ('TAX_PERSONAL_DEDUCTION', 'TAX_PENSION_CREDIT', 'TAX_SPOUSAL_AMOUNT', 'TAX_CREDIT_RATE'):
            hi = 1 if name == 'TAX_CREDIT_RATE' else float('inf')
            for j, t in (v.items() if isinstance(v, dict) else [('?', None)]):
                r.site('%s[%s]' % (w, j), isinstance(t, dict) and t and all(0 <= x <= hi for x in t.values()), 'is not a table of amounts by year')
        if name in ('TAX_BRACKETS', 'TAX_PERSONAL_DEDUCTION', 'TAX_PENSION_CREDIT', 'TAX_SPOUSAL_AMOUNT', 'TAX_CREDIT_RATE') and isinstance(v, dict):
            seen.setdefault(src, {})[name] = set(v)
    for src, t in seen.items():
        allj = set().union(*t.values())
        for name, j in t.items():
            r.site('%s %s' % (src, name), j == allj, 'lacks the jurisdictions %s that other tables have' % sorted(allj - j))
    return r


def brackets_ok(t):
    return isinstance(t, dict) and bool(t) and all(
        isinstance(b, dict) and b and min(b) == 0 and all(isinstance(x, (int, float)) and 0 <= x <= 1 for x in b.values()) for b in t.values())


@rule('C26', 'C30', 'C25')
def named_values_exist(ctx, pid):
    r = Result('named values exist', 'every setting or constant the package reads is declared where it is read from', 6)
    decl = {n for c in ('ConstantsCanada', 'SettingsCanada') for n in settings_attrs(ctx.p.cls(c))}
    for f in ctx.p.all_functions():
        env = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and \
                    n.value.func.id in ('ConstantsCanada', 'Settings', 'SettingsCanada'):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = n.value.func.id
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                v = n.value
                is_const = (isinstance(v, ast.Name) and (v.id in env or v.id == 'constants')) or \
                    (isinstance(v, ast.Attribute) and v.attr == 'constants') or \
                    (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'ConstantsCanada')
                if is_const and n.attr.upper() == n.attr and not n.attr.startswith('_'):
                    r.site('%s %s' % (at(f, n), n.attr), n.attr in decl, 'no constant %s is declared' % n.attr)
    return r
