"""Generators of edited functions, for testing the comparison engine.

`mutants(fn)` yields behaviour-changing edits, `refactors(fn)` yields
behaviour-preserving ones.  Both work on the syntax tree of one function and
yield (label, new FunctionDef, extra helper FunctionDefs).
"""
import ast
import copy


def _clone(fn):
    return copy.deepcopy(fn)


def _nodes(fn, typ):
    return [n for n in ast.walk(fn) if isinstance(n, typ)]


def _replace(fn, idx, typ, make):
    c = _clone(fn)
    t = _nodes(c, typ)[idx]
    new = make(t)
    if new is None:
        return None

    class R(ast.NodeTransformer):
        def visit(self, n):
            if n is t:
                return new
            return super().visit(n)
    c = R().visit(c)
    ast.fix_missing_locations(c)
    return c


# ------------------------------------------------------------------ mutants
def mutants(fn):
    for i, n in enumerate(_nodes(fn, ast.BinOp)):
        def m(t):
            o = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(t.op))
            if o is None:
                return None
            return ast.BinOp(t.left, o(), t.right)
        c = _replace(fn, i, ast.BinOp, m)
        if c:
            yield 'op:%d' % n.lineno, c, []
        c = _replace(fn, i, ast.BinOp, lambda t: t.left)
        yield 'dropright:%d' % n.lineno, c, []
    for i, n in enumerate(_nodes(fn, ast.Compare)):
        def m(t):
            o = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
                 ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}[type(t.ops[0])]
            return ast.Compare(t.left, [o()] + t.ops[1:], t.comparators)
        yield 'cmp:%d' % n.lineno, _replace(fn, i, ast.Compare, m), []
    for i, n in enumerate(_nodes(fn, ast.BoolOp)):
        yield 'bool:%d' % n.lineno, _replace(fn, i, ast.BoolOp, lambda t: ast.BoolOp(
            ast.Or() if isinstance(t.op, ast.And) else ast.And(), t.values)), []
        yield 'boolfirst:%d' % n.lineno, _replace(fn, i, ast.BoolOp, lambda t: t.values[0]), []
        yield 'boollast:%d' % n.lineno, _replace(fn, i, ast.BoolOp, lambda t: t.values[-1]), []
    for i, n in enumerate(_nodes(fn, ast.UnaryOp)):
        yield 'unary:%d' % n.lineno, _replace(fn, i, ast.UnaryOp, lambda t: t.operand), []
    for i, n in enumerate(_nodes(fn, ast.Constant)):
        def m(t):
            if isinstance(t.value, bool):
                return ast.Constant(not t.value)
            if isinstance(t.value, (int, float)):
                return ast.Constant(t.value + 1)
            return None
        c = _replace(fn, i, ast.Constant, m)
        if c:
            yield 'const:%d' % n.lineno, c, []
    for i, n in enumerate(_nodes(fn, ast.Call)):
        if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max') and len(n.args) > 1:
            yield 'minmax:%d' % n.lineno, _replace(fn, i, ast.Call, lambda t: ast.Call(
                ast.Name('max' if t.func.id == 'min' else 'min', ast.Load()), t.args, t.keywords)), []
            yield 'dropmm:%d' % n.lineno, _replace(fn, i, ast.Call, lambda t: t.args[0]), []
        for k in range(len(n.keywords)):
            yield 'dropkw:%d:%s' % (n.lineno, n.keywords[k].arg), _replace(fn, i, ast.Call, lambda t: ast.Call(
                t.func, t.args, t.keywords[:k] + t.keywords[k + 1:])), []
    # drop statements
    bodies = []
    for n in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                bodies.append((n, field))
    for bi, (n, field) in enumerate(bodies):
        for si, s in enumerate(getattr(n, field)):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            c = _clone(fn)
            k = -1
            done = False
            for m in ast.walk(c):
                for f2 in ('body', 'orelse', 'finalbody'):
                    b = getattr(m, f2, None)
                    if isinstance(b, list):
                        k += 1
                        if k == bi:
                            b[si] = ast.Pass()
                            done = True
                            break
                if done:
                    break
            ast.fix_missing_locations(c)
            yield 'drop:%d' % s.lineno, c, []
    # attribute confusions
    sib = {'max_inflow_limit': 'max_outflow_limit', 'min_inflow_limit': 'min_outflow_limit',
           'max_outflow_limit': 'max_inflow_limit', 'min_outflow_limit': 'min_inflow_limit',
           'assets': 'debts', 'debts': 'assets', 'inflows': 'outflows', 'outflows': 'inflows',
           'max_inflows': 'min_inflows', 'max_outflows': 'min_outflows', 'taxable_income': 'tax_withheld',
           'tax_withheld': 'taxable_income', 'balance': 'balance_history', 'initial_year': 'this_year',
           'this_year': 'initial_year', 'tax_credit': 'tax_deduction', 'tax_deduction': 'tax_credit',
           'gross_income': 'net_income', 'net_income': 'gross_income', 'retirement_accounts': 'debts',
           'living_expenses_strategy': 'saving_strategy', 'max_inflow_link': 'max_outflow_link',
           'min_inflow_link': 'max_inflow_link', 'min_outflow_link': 'max_outflow_link', 'max_outflow_link': 'min_outflow_link'}
    for i, n in enumerate(_nodes(fn, ast.Attribute)):
        if n.attr in sib:
            yield 'attr:%d:%s' % (n.lineno, n.attr), _replace(fn, i, ast.Attribute, lambda t: ast.Attribute(t.value, sib[t.attr], t.ctx)), []
    # loops that end early, skip elements, or see a stale value
    for i, n in enumerate(_nodes(fn, ast.For)):
        yield 'brkend:%d' % n.lineno, _replace(fn, i, ast.For, lambda t: ast.For(
            t.target, t.iter, t.body + [ast.Break()], t.orelse, None)), []
        yield 'skipfirst:%d' % n.lineno, _replace(fn, i, ast.For, lambda t: ast.For(
            t.target, ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [t.iter], []),
                                    ast.Slice(ast.Constant(1), None, None), ast.Load()), t.body, t.orelse, None)), []
    for i, n in enumerate(_nodes(fn, ast.Continue)):
        yield 'cont2brk:%d' % n.lineno, _replace(fn, i, ast.Continue, lambda t: ast.Break()), []
    for i, n in enumerate(_nodes(fn, ast.Call)):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (
                isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'isinstance', 'hasattr', 'getattr')):
            yield 'argswap:%d' % n.lineno, _replace(fn, i, ast.Call, lambda t: ast.Call(
                t.func, [t.args[1], t.args[0]] + t.args[2:], t.keywords)), []
    for i, n in enumerate(_nodes(fn, ast.Subscript)):
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            yield 'index:%d' % n.lineno, _replace(fn, i, ast.Subscript, lambda t: ast.Subscript(
                t.value, ast.BinOp(t.slice, ast.Add(), ast.Constant(1)), t.ctx)), []
    for bi, b in enumerate(_bodies(fn)):
        for si in range(len(b) - 1):
            x, y = b[si], b[si + 1]
            if isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.Raise)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            if _stored([x]) & _loaded([y]) and not _stored([y]) & _loaded([x]):
                first = next(iter(sorted(_stored([x]) & _loaded([y]))))
                pre = any(first in _stored(b[:k]) for k in range(si + 1)) or first in [a.arg for a in fn.args.args]
                if pre:
                    c = _clone(fn)
                    bb = _bodies(c)[bi]
                    bb[si], bb[si + 1] = bb[si + 1], bb[si]
                    yield 'stale:%d' % x.lineno, c, []
            elif _has([x], ast.Call) and _has([y], ast.Call) and isinstance(x, ast.Expr):
                c = _clone(fn)
                bb = _bodies(c)[bi]
                bb[si], bb[si + 1] = bb[si + 1], bb[si]
                yield 'order:%d' % x.lineno, c, []


# ------------------------------------------------------------------ refactors
def _stored(nodes):
    return {n.id for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def _loaded(nodes):
    return {n.id for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def _bodies(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Lambda):
            continue
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                out.append(b)
    return out


def _has(nodes, typ):
    return any(isinstance(x, typ) for s in nodes for x in ast.walk(s))


def refactors(fn):
    params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    if fn.args.vararg:
        params.append(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.append(fn.args.kwarg.arg)
    # invert if/else
    for i, n in enumerate(_nodes(fn, ast.If)):
        if n.orelse:
            yield 'invert:%d' % n.lineno, _replace(fn, i, ast.If, lambda t: ast.If(
                ast.UnaryOp(ast.Not(), t.test), t.orelse, t.body)), []
        else:
            yield 'ifpass:%d' % n.lineno, _replace(fn, i, ast.If, lambda t: ast.If(
                ast.UnaryOp(ast.Not(), t.test), [ast.Pass()], t.body)), []
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            yield 'nestif:%d' % n.lineno, _replace(fn, i, ast.If, lambda t: ast.If(
                t.test.values[0], [ast.If(ast.BoolOp(ast.And(), t.test.values[1:]) if len(t.test.values) > 2 else t.test.values[1], t.body, [])], [])), []
    # early return -> else
    for bi, b in enumerate(_bodies(fn)):
        for si, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[si + 1:]:
                c = _clone(fn)
                bb = _bodies(c)[bi]
                bb[si].orelse = bb[si + 1:]
                del bb[si + 1:]
                ast.fix_missing_locations(c)
                yield 'else:%d' % s.lineno, c, []
            if isinstance(s, ast.If) and s.orelse and si == len(b) - 1 and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                c = _clone(fn)
                bb = _bodies(c)[bi]
                bb.extend(bb[si].orelse)
                bb[si].orelse = []
                ast.fix_missing_locations(c)
                yield 'early:%d' % s.lineno, c, []
            if isinstance(s, ast.If) and si == len(b) - 1 and b is fn.body and not s.orelse and not _has([s], ast.Yield):
                # guard clause
                c = _clone(fn)
                bb = c.body
                t = bb[si]
                bb[si:] = [ast.If(ast.UnaryOp(ast.Not(), t.test), [ast.Return(None)], [])] + t.body
                ast.fix_missing_locations(c)
                yield 'guard:%d' % s.lineno, c, []
    # temp for return
    for i, n in enumerate(_nodes(fn, ast.Return)):
        if n.value is not None:
            c = _clone(fn)
            t = _nodes(c, ast.Return)[i]
            for b in _bodies(c):
                if t in b:
                    k = b.index(t)
                    b[k:k + 1] = [ast.Assign([ast.Name('tmp_result', ast.Store())], t.value), ast.Return(ast.Name('tmp_result', ast.Load()))]
            ast.fix_missing_locations(c)
            yield 'temp:%d' % n.lineno, c, []
        if isinstance(n.value, ast.IfExp):
            c = _clone(fn)
            t = _nodes(c, ast.Return)[i]
            for b in _bodies(c):
                if t in b:
                    k = b.index(t)
                    b[k:k + 1] = [ast.If(t.value.test, [ast.Return(t.value.body)], [ast.Return(t.value.orelse)])]
            ast.fix_missing_locations(c)
            yield 'unternary:%d' % n.lineno, c, []
    # augmented assignment
    for i, n in enumerate(_nodes(fn, ast.AugAssign)):
        def m(t):
            l = copy.deepcopy(t.target)
            l.ctx = ast.Load()
            return ast.Assign([t.target], ast.BinOp(l, t.op, t.value))
        yield 'aug:%d' % n.lineno, _replace(fn, i, ast.AugAssign, m), []
    # flip comparison
    for i, n in enumerate(_nodes(fn, ast.Compare)):
        fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in fl:
            yield 'flip:%d' % n.lineno, _replace(fn, i, ast.Compare, lambda t: ast.Compare(
                t.comparators[0], [fl[type(t.ops[0])]()], [t.left])), []
            ng = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            yield 'notcmp:%d' % n.lineno, _replace(fn, i, ast.Compare, lambda t: ast.UnaryOp(ast.Not(), ast.Compare(
                t.left, [ng[type(t.ops[0])]()], t.comparators))), []
    # De Morgan
    for i, n in enumerate(_nodes(fn, ast.BoolOp)):
        def boolish(x):
            return isinstance(x, ast.Compare) or (isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)) or (
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('isinstance', 'hasattr', 'any', 'all'))
        if all(boolish(v) for v in n.values):
            yield 'demorgan:%d' % n.lineno, _replace(fn, i, ast.BoolOp, lambda t: ast.UnaryOp(ast.Not(), ast.BoolOp(
                ast.And() if isinstance(t.op, ast.Or) else ast.Or(), [ast.UnaryOp(ast.Not(), v) for v in t.values]))), []
    # min/max as conditional, commuted arguments
    for i, n in enumerate(_nodes(fn, ast.Call)):
        if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max') and len(n.args) == 2 and not n.keywords and not any(
                isinstance(a, ast.Starred) for a in n.args):
            yield 'commute:%d' % n.lineno, _replace(fn, i, ast.Call, lambda t: ast.Call(t.func, t.args[::-1], [])), []
            yield 'minmaxif:%d' % n.lineno, _replace(fn, i, ast.Call, lambda t: ast.IfExp(
                ast.Compare(t.args[0], [ast.Lt() if t.func.id == 'min' else ast.Gt()], [copy.deepcopy(t.args[1])]),
                copy.deepcopy(t.args[0]), t.args[1])), []
        # sum(gen) -> loop in helper
        if isinstance(n.func, ast.Name) and n.func.id == 'sum' and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) \
                and len(n.args[0].generators) == 1:
            yield from _loopify(fn, i, n)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) \
                and len(n.args[0].generators) == 1:
            yield from _loopify_any(fn, i, n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2:
            yield 'get:%d' % n.lineno, _replace(fn, i, ast.Call, lambda t: ast.IfExp(
                ast.Compare(t.args[0], [ast.In()], [t.func.value]), ast.Subscript(copy.deepcopy(t.func.value), copy.deepcopy(t.args[0]), ast.Load()), t.args[1])), []
    # commute + and *
    for i, n in enumerate(_nodes(fn, ast.BinOp)):
        if isinstance(n.op, (ast.Add, ast.Mult)) and not any(isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
            yield 'commop:%d' % n.lineno, _replace(fn, i, ast.BinOp, lambda t: ast.BinOp(t.right, t.op, t.left)), []
    # comprehension -> loop
    for kind in (ast.ListComp, ast.DictComp, ast.SetComp):
        for i, n in enumerate(_nodes(fn, kind)):
            if len(n.generators) == 1:
                yield from _comp_to_loop(fn, kind, i, n)
    # sum(gen) over dict: .items() / keys
    for i, n in enumerate(_nodes(fn, ast.comprehension)):
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'keys':
            pass
    # rename locals
    loc = _stored([fn]) - set(params) - {g for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for g in n.names}
    if loc:
        c = _clone(fn)
        for n in ast.walk(c):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = 'renamed_' + n.id
        yield 'rename', c, []
    # no-op statement
    c = _clone(fn)
    c.body.insert(1 if len(c.body) > 1 else 0, ast.Assign([ast.Name('_unused', ast.Store())], ast.Constant(None)))
    ast.fix_missing_locations(c)
    yield 'noop', c, []
    # swap adjacent independent assignments to locals
    for bi, b in enumerate(_bodies(fn)):
        for si in range(len(b) - 1):
            s, t = b[si], b[si + 1]
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and all(
                    isinstance(x, ast.Name) for x in s.targets + t.targets):
                if not (_stored([s]) & (_loaded([t]) | _stored([t]))) and not (_stored([t]) & _loaded([s])) \
                        and not _has([s, t], ast.Call):
                    c = _clone(fn)
                    bb = _bodies(c)[bi]
                    bb[si], bb[si + 1] = bb[si + 1], bb[si]
                    yield 'swap:%d' % s.lineno, c, []
            # independent attribute stores in constructors
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and all(
                    isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) for x in s.targets + t.targets) \
                    and not _has([s.value, t.value], (ast.Call, ast.Attribute)) and s.targets[0].attr.startswith('_') and t.targets[0].attr.startswith('_'):
                c = _clone(fn)
                bb = _bodies(c)[bi]
                bb[si], bb[si + 1] = bb[si + 1], bb[si]
                yield 'swapattr:%d' % s.lineno, c, []
    # extract expression / tail / block into a helper
    is_method = params[:1] == ['self']
    yield from _extract_blocks(fn, params, is_method)
    yield from _extract_exprs(fn, params, is_method)


def _helper(name, args, body, is_method):
    a = (['self'] if is_method else []) + args
    return ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in a], kwonlyargs=[],
                           kw_defaults=[], defaults=[]), body=body, decorator_list=[])


def _hcall(name, args, is_method):
    f = ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()) if is_method else ast.Name(name, ast.Load())
    return ast.Call(f, [ast.Name(x, ast.Load()) for x in args], [])


def _super_free(nodes):
    return not any(isinstance(x, ast.Name) and x.id == 'super' for s in nodes for x in ast.walk(s))


def _nested(fn):
    return {id(x) for d in ast.walk(fn) if isinstance(d, ast.FunctionDef) and d is not fn for x in ast.walk(d) if x is not d}


def _extract_exprs(fn, params, is_method):
    k = 0
    nested = _nested(fn)
    for typ in (ast.BinOp, ast.GeneratorExp, ast.DictComp, ast.IfExp, ast.Compare):
        for i, n in enumerate(_nodes(fn, typ)):
            if id(n) in nested:
                continue
            inner_bound = set()
            # skip when inside comprehension/lambda using its variables
            comps = [c for c in ast.walk(fn) if isinstance(c, (ast.comprehension,))]
            for c in comps:
                inner_bound |= _stored([c.target])
            lam = {a.arg for l in ast.walk(fn) if isinstance(l, ast.Lambda) for a in l.args.args}
            own = set()
            for c in ast.walk(n):
                if isinstance(c, ast.comprehension):
                    own |= _stored([c.target])
            names = (_loaded([n]) & (_stored([fn]) | set(params) | lam)) - {'self'} - own
            if not _super_free([n]) or _has([n], (ast.Yield, ast.NamedExpr)):
                continue
            args = sorted(names)
            h = _helper('_extracted_value', args, [ast.Return(copy.deepcopy(n))], is_method)
            ast.fix_missing_locations(h)
            c = _replace(fn, i, typ, lambda t: _hcall('_extracted_value', args, is_method))
            yield 'xexpr:%d' % n.lineno, c, [h]
            k += 1
            if k > 12:
                return


def _extract_blocks(fn, params, is_method):
    nested = _nested(fn)
    for bi, b in enumerate(_bodies(fn)):
        if b is fn.body:
            # tail extraction
            for si in range(1, len(b)):
                if isinstance(b[si - 1], ast.Expr) and isinstance(b[si - 1].value, ast.Constant) and si == 1:
                    continue
                tail = b[si:]
                if not _super_free(tail) or _has(tail, (ast.Yield, ast.FunctionDef)):
                    continue
                args = sorted((_loaded(tail) & (_stored(b[:si]) | set(params))) - {'self'})
                h = _helper('_extracted_tail', args, copy.deepcopy(tail), is_method)
                ast.fix_missing_locations(h)
                c = _clone(fn)
                c.body[si:] = [ast.Return(_hcall('_extracted_tail', args, is_method))]
                ast.fix_missing_locations(c)
                yield 'xtail:%d' % tail[0].lineno, c, [h]
        # single statements without local stores used later
        for si, s in enumerate(b):
            if id(s) in nested:
                continue
            if isinstance(s, (ast.For, ast.If, ast.While, ast.Expr, ast.AugAssign, ast.Assign)) and not _has([s], (ast.Return, ast.Yield, ast.Break, ast.Continue, ast.FunctionDef)):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if not _super_free([s]):
                    continue
                used = _stored([s]) & (_loaded([fn]))
                only_inner = all(
                    not any(isinstance(x, ast.Name) and x.id in used and x not in set(ast.walk(s)) for x in ast.walk(fn)) for _ in [0])
                args = sorted((_loaded([s]) & (_stored([fn]) | set(params))) - {'self'} - ((_stored([s]) - set(params)) if only_inner else set()))
                if _stored([s]) and not only_inner:
                    st = sorted(_stored([s]))
                    if len(st) == 1 and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                        args = sorted((_loaded([s.value]) & (_stored([fn]) | set(params))) - {'self'})
                        h = _helper('_extracted_part', args, [ast.Return(copy.deepcopy(s.value))], is_method)
                        ast.fix_missing_locations(h)
                        c = _clone(fn)
                        _bodies(c)[bi][si].value = _hcall('_extracted_part', args, is_method)
                        ast.fix_missing_locations(c)
                        yield 'xassign:%d' % s.lineno, c, [h]
                    continue
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    continue
                h = _helper('_extracted_block', args, [copy.deepcopy(s)], is_method)
                ast.fix_missing_locations(h)
                c = _clone(fn)
                _bodies(c)[bi][si] = ast.Expr(_hcall('_extracted_block', args, is_method))
                ast.fix_missing_locations(c)
                yield 'xblock:%d' % s.lineno, c, [h]


def _stmt_holding(fn, i, typ):
    """Body list and index of the simple statement that contains the i-th node."""
    t = _nodes(fn, typ)[i]
    for b in _bodies(fn):
        for k, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr, ast.AugAssign)) and any(x is t for x in ast.walk(s)):
                # not nested in another comprehension or lambda
                for x in ast.walk(s):
                    if x is not t and isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp, ast.Lambda, ast.IfExp, ast.BoolOp)) \
                            and any(y is t for y in ast.walk(x)) and not any(y is x for y in ast.walk(t)):
                        return None
                return b, k, t
    return None


def _subst_node(root, t, new):
    class R(ast.NodeTransformer):
        def visit(self, n):
            if n is t:
                return new
            return super().visit(n)
    return R().visit(root)


def _loopify(fn, i, n):
    c = _clone(fn)
    r = _stmt_holding(c, i, ast.Call)
    if r is None:
        return
    b, k, t = r
    g = t.args[0].generators[0]
    body = [ast.AugAssign(ast.Name('acc_total', ast.Store()), ast.Add(), t.args[0].elt)]
    for cond in reversed(g.ifs):
        body = [ast.If(cond, body, [])]
    loop = ast.For(g.target, g.iter, body, [])
    s = b[k]
    s2 = _subst_node(s, t, ast.Name('acc_total', ast.Load()))
    b[k:k + 1] = [ast.Assign([ast.Name('acc_total', ast.Store())], ast.Constant(0)), loop, s2]
    ast.fix_missing_locations(c)
    yield 'loopsum:%d' % n.lineno, c, []


def _loopify_any(fn, i, n):
    c = _clone(fn)
    r = _stmt_holding(c, i, ast.Call)
    if r is None:
        return
    b, k, t = r
    isany = t.func.id == 'any'
    g = t.args[0].generators[0]
    test = t.args[0].elt if isany else ast.UnaryOp(ast.Not(), t.args[0].elt)
    body = [ast.If(test, [ast.Assign([ast.Name('found_flag', ast.Store())], ast.Constant(isany))], [])]
    for cond in reversed(g.ifs):
        body = [ast.If(cond, body, [])]
    loop = ast.For(g.target, g.iter, body, [])
    s2 = _subst_node(b[k], t, ast.Name('found_flag', ast.Load()))
    b[k:k + 1] = [ast.Assign([ast.Name('found_flag', ast.Store())], ast.Constant(not isany)), loop, s2]
    ast.fix_missing_locations(c)
    yield 'loopany:%d' % n.lineno, c, []


def _comp_to_loop(fn, kind, i, n):
    c = _clone(fn)
    r = _stmt_holding(c, i, kind)
    if r is None:
        return
    b, k, t = r
    g = t.generators[0]
    nm = 'built_items'
    if kind is ast.ListComp:
        init = ast.List([], ast.Load())
        step = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [t.elt], []))
    elif kind is ast.SetComp:
        init = ast.Call(ast.Name('set', ast.Load()), [], [])
        step = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'add', ast.Load()), [t.elt], []))
    else:
        init = ast.Dict([], [])
        step = ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), t.key, ast.Store())], t.value)
    body = [step]
    for cond in reversed(g.ifs):
        body = [ast.If(cond, body, [])]
    loop = ast.For(g.target, g.iter, body, [])
    s2 = _subst_node(b[k], t, ast.Name(nm, ast.Load()))
    b[k:k + 1] = [ast.Assign([ast.Name(nm, ast.Store())], init), loop, s2]
    ast.fix_missing_locations(c)
    yield 'looped:%d' % n.lineno, c, []
