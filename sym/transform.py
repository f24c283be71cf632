"""AST instrumentation: the real source, with its operations routed through the
symbolic runtime.  Anything not rewritten keeps CPython's own semantics."""
import ast

S = '_SYM_'
NOCALL = {'super', 'locals', 'globals', 'eval', 'exec', 'vars', 'dir', '__import__'}
MERGE_MAX = 40       # statements in a branch that may be merged


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _s(attr):
    return ast.Attribute(value=_name(S), attr=attr, ctx=ast.Load())


def _call(attr, args, keywords=None):
    return ast.Call(func=_s(attr), args=args, keywords=keywords or [])


def _lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=body)


def _has(node, types):
    return any(isinstance(n, types) for n in ast.walk(node))


UNLAM = (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)


def mangled(n):
    return n.startswith('__') and not n.endswith('__')


def names_of(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        out = []
        for e in t.elts:
            r = names_of(e)
            if r is None:
                return None
            out += r
        return out
    return None


def mergeable(body, globs, count=None):
    """Assigned local names if the statements may be executed under a guard."""
    out = []
    for st in body:
        if isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Expr):
            if _has(st, UNLAM):
                return None
            continue
        if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if isinstance(st, ast.AnnAssign) and st.value is None:
                return None
            if _has(st.value, UNLAM):
                return None
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tg:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    continue
                n = names_of(t)
                if n is None or set(n) & globs:
                    return None
                out += n
            continue
        if isinstance(st, ast.If):
            if _has(st.test, UNLAM):
                return None
            a, b = mergeable(st.body, globs), mergeable(st.orelse, globs)
            if a is None or b is None:
                return None
            out += a + b
            continue
        return None
    return out


def count_stmts(body):
    return sum(1 + (count_stmts(s.body) + count_stmts(s.orelse) if isinstance(s, ast.If) else 0)
               for s in body)


def ret_expr(body):
    """The expression that the statements return, if that is all they do."""
    if not body or any(_has(s, UNLAM + (ast.Call,)) for s in body):
        return None
    st = body[0]
    if isinstance(st, ast.Return):
        return st.value if st.value is not None else ast.Constant(None)
    if isinstance(st, ast.If):
        a, b = ret_expr(st.body), ret_expr(st.orelse or body[1:])
        if a is not None and b is not None:
            return ast.copy_location(ast.IfExp(st.test, a, b), st)
    return None


def early(body, kind, globs):
    """The same statements without an early exit (continue of a loop, return without value at the
    end of a function) where what remains can be executed under a guard."""
    if kind is ast.Return:
        for k in range(len(body)):
            if isinstance(body[k], ast.If):
                e = ret_expr(body[k:])
                if e is not None:
                    return body[:k] + [ast.copy_location(ast.Return(e), body[k])]
    for k in range(len(body) - 1, -1, -1):
        st = body[k]
        if isinstance(st, ast.If) and st.body and isinstance(st.body[-1], kind) and \
                not st.orelse and getattr(st.body[-1], 'value', None) is None:
            rest = body[k + 1:]
            if rest and isinstance(rest[-1], kind) and getattr(rest[-1], 'value', None) is None:
                rest = rest[:-1]
            if mergeable(st.body[:-1], globs) is None or mergeable(rest, globs) is None or \
                    count_stmts(st.body) + count_stmts(rest) > MERGE_MAX:
                continue
            first = st.body[:-1]
            if not first:
                new = ast.If(ast.UnaryOp(ast.Not(), st.test), rest or [ast.Pass()], [])
            else:
                new = ast.If(st.test, first, rest)
            body = body[:k] + [ast.copy_location(new, st)]
    return body


class T(ast.NodeTransformer):
    def __init__(self, modname, maxmerge=4):
        self.mod = modname
        self.maxmerge = maxmerge
        self.mdepth = 0
        self.depth = 0
        self.nsite = 0
        self.globs = [set()]

    def site(self, node):
        self.nsite += 1
        return ast.Constant('%s:%s:%s' % (self.mod, getattr(node, 'lineno', 0), self.nsite))

    # ---- scopes
    def _func(self, node):
        self.depth += 1
        g = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                g |= set(n.names)
        self.globs.append(g)
        doc = ast.get_docstring(node, clean=False) is not None
        node.args = self.visit(node.args)
        node.body = self.block(early(node.body, ast.Return, g))
        if g:
            node.body.insert(1 if doc else 0, ast.Expr(_call('impure', [])))
        if self.mod.startswith('jpylyzer'):
            node.body.insert(1 if doc else 0, ast.Expr(_call('enter', [
                ast.Constant('%s:%s' % (self.mod, node.name))])))
        self.globs.pop()
        self.depth -= 1
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = self.block(node.body)
        self.depth = d
        return node

    def block(self, body):
        out = []
        for st in body:
            r = self.visit(st)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    # ---- statements
    def visit_If(self, node):
        if not self.depth or self.mdepth >= self.maxmerge:
            return self._plain_if(node)
        tests, bodies = [], []
        cur = node
        while True:
            tests.append(cur.test)
            bodies.append(cur.body)
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
            else:
                bodies.append(cur.orelse)
                break
        names = []
        for t in tests:
            if _has(t, UNLAM):
                return self._plain_if(node)
        for bd in bodies:
            a = mergeable(bd, self.globs[-1])
            if a is None:
                return self._plain_if(node)
            names += a
        if sum(count_stmts(bd) for bd in bodies) > MERGE_MAX:
            return self._plain_if(node)
        names = sorted(set(names))
        site = self.site(node)
        sid = self.nsite
        tests = [self.visit(t) for t in tests]
        self.mdepth += 1
        bodies = [self.block(bd) for bd in bodies]
        self.mdepth -= 1
        m = '_sm%d_' % sid
        bv = '_sb%d_' % sid
        en = '_se%d_' % sid

        def ma(attr, *args):
            return ast.Call(ast.Attribute(_name(m), attr, ast.Load()), list(args), [])
        nm = ast.Tuple([ast.Constant(n) for n in names], ast.Load())
        loc = ast.Call(func=_name('locals'), args=[], keywords=[])
        merging = ast.Attribute(_name(m), 'merging', ast.Load())
        pre = ast.Assign([_name(m, ast.Store())],
                         _call('ifm', [site, nm] + [_lam(t) for t in tests]))
        snap = ast.If(merging, [ast.Expr(ma('snap', loc))], [])
        restore = []
        for n in names:
            restore.append(ast.If(
                ma('had', ast.Constant(n)),
                [ast.Assign([_name(n, ast.Store())], ma('saved', ast.Constant(n)))],
                [ast.If(ast.Compare(ast.Constant(n), [ast.In()], [loc]),
                        [ast.Delete([_name(n, ast.Del())])], [])]))
        inner = []
        if restore:
            inner.append(ast.If(ast.Attribute(_name(m), 'second', ast.Load()), restore, []))
        core = bodies[-1]
        for k in range(len(bodies) - 2, -1, -1):
            core = [ast.If(ast.Compare(_name(bv), [ast.Eq()], [ast.Constant(k)]),
                           bodies[k] or [ast.Pass()], core)]
        tr = ast.Try(core, [ast.ExceptHandler(
            _name('BaseException'), en,
            [ast.Expr(ma('exc', _name(en))), ast.Raise()])], [], [])
        inner.append(tr)
        inner.append(ast.If(merging, [ast.Expr(ma('done', loc))], []))
        out = [pre, snap, ast.For(_name(bv, ast.Store()), _name(m), inner, [])]
        post = [ast.If(ma('merged', ast.Constant(n)),
                       [ast.Assign([_name(n, ast.Store())], ma('get', ast.Constant(n)))], [])
                for n in names]
        if post:
            out.append(ast.If(merging, post, []))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def _plain_if(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def _tick(self, node):
        t = ast.Expr(_call('tick', []))
        ast.copy_location(t, node)
        ast.fix_missing_locations(t)
        return t

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = [self._tick(node)] + self.block(early(node.body, ast.Continue, self.globs[-1]))
        node.orelse = self.block(node.orelse)
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.body = [self._tick(node)] + self.block(early(node.body, ast.Continue, self.globs[-1]))
        node.orelse = self.block(node.orelse)
        return node

    def visit_With(self, node):
        node.items = [self.visit(i) for i in node.items]
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.block(h.body)
        if node.handlers:
            h = ast.ExceptHandler(_s('Control'), None, [ast.Raise()])
            ast.copy_location(h, node)
            ast.fix_missing_locations(h)
            node.handlers.insert(0, h)
        return node

    def visit_Assign(self, node):
        if not self.depth:
            return self.generic_visit(node)
        node.value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Attribute) and not mangled(t.attr):
                return ast.copy_location(ast.Expr(ast.fix_missing_locations(ast.copy_location(
                    _call('setattr', [self.visit(t.value), ast.Constant(t.attr), node.value]),
                    node))), node)
            if isinstance(t, ast.Subscript):
                return ast.copy_location(ast.Expr(ast.fix_missing_locations(ast.copy_location(
                    _call('setitem', [self.visit(t.value), self._index(t.slice), node.value]),
                    node))), node)
        out = [node]
        if any(_has(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
            out.insert(0, self._stmt(node, _call('impure', [])))
        node.targets = [self._target(t) for t in node.targets]
        return out

    def _target(self, t):
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                n.value = self.visit(n.value)
        return t

    def _stmt(self, node, call):
        e = ast.Expr(call)
        ast.copy_location(e, node)
        ast.fix_missing_locations(e)
        return e

    def visit_AnnAssign(self, node):
        if not self.depth or node.value is None:
            return node
        if isinstance(node.target, ast.Name):
            node.value = self.visit(node.value)
            return node
        n = ast.copy_location(ast.Assign([node.target], node.value), node)
        ast.fix_missing_locations(n)
        return self.visit_Assign(n)

    def visit_AugAssign(self, node):
        if not self.depth:
            return self.generic_visit(node)
        op = ast.Constant(type(node.op).__name__)
        t = node.target
        val = self.visit(node.value)
        if isinstance(t, ast.Name):
            n = ast.Assign([t], _call('aug', [op, _name(t.id), val]))
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                and not mangled(t.attr):
            n = ast.Expr(_call('setattr', [
                _name(t.value.id), ast.Constant(t.attr),
                _call('aug', [op, ast.Attribute(_name(t.value.id), t.attr, ast.Load()), val])]))
        elif isinstance(t, ast.Subscript) and isinstance(t.value, (ast.Name, ast.Attribute)) and \
                isinstance(t.slice, (ast.Name, ast.Constant)):
            import copy
            o = self.visit(copy.deepcopy(t.value))
            for q in (o,):
                if hasattr(q, 'ctx'):
                    q.ctx = ast.Load()
            i1, i2 = copy.deepcopy(t.slice), copy.deepcopy(t.slice)
            n = ast.Expr(_call('setitem', [
                o, i1, _call('aug', [op, _call('getitem', [copy.deepcopy(o), i2]), val])]))
        else:
            node.value = val
            return [self._stmt(node, _call('impure', [])), node]
        ast.copy_location(n, node)
        ast.fix_missing_locations(n)
        return n

    def visit_Delete(self, node):
        if not self.depth:
            return node
        return [self._stmt(node, _call('impure', [])), node]

    # ---- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            self.generic_visit(node)
            return node
        if not self.depth:
            self.generic_visit(node)
            if isinstance(node.func, ast.Name) and node.func.id == 'dict':
                return ast.copy_location(_call('mkdict', [node]), node)
            return node
        self.generic_visit(node)
        n = ast.Call(func=_s('call'), args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(n, node)

    def visit_Dict(self, node):
        if self.depth and any(k is not None and not isinstance(k, ast.Constant)
                              for k in node.keys) and None not in node.keys:
            l = ast.List([ast.Tuple([k, v], ast.Load())
                          for k, v in zip(node.keys, node.values)], ast.Load())
            return ast.copy_location(_call('mkdictitems', [self.visit(
                ast.fix_missing_locations(ast.copy_location(l, node)))]), node)
        self.generic_visit(node)
        return ast.copy_location(_call('mkdict', [node]), node)

    def visit_DictComp(self, node):
        if self.depth:
            l = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
            return ast.copy_location(_call('mkdictitems', [self.visit(
                ast.fix_missing_locations(ast.copy_location(l, node)))]), node)
        self.generic_visit(node)
        return ast.copy_location(_call('mkdict', [node]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        return ast.copy_location(_call('mkset', [ast.List(node.elts, ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        return ast.copy_location(_call('mkset', [ast.ListComp(node.elt, node.generators)]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if len(node.ops) == 1:
            return ast.copy_location(self._cmp(node.left, node.ops[0], node.comparators[0]), node)
        # chain: a op b op c  ->  and_(cmp(a, t:=b), lambda: cmp(t, c))
        if all(isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) for c in
               node.comparators[:-1]):
            import copy
            left = node.left
            parts = []
            for op, c in zip(node.ops, node.comparators):
                parts.append(self._cmp(left, op, c))
                left = copy.deepcopy(c)
            return ast.copy_location(self._boolop('and_', parts, node), node)
        # intermediate operands with calls: evaluate them first (they are evaluated
        # in order by Python as well; the last operand may be skipped by Python)
        ops = ast.List([ast.Constant(type(o).__name__) for o in node.ops], ast.Load())
        vals = [_lam(c) for c in [node.left] + node.comparators]
        if any(_has(c, UNLAM) for c in [node.left] + node.comparators):
            return node
        return ast.copy_location(_call('chain', [self.site(node), ops] + vals), node)

    def _cmp(self, a, op, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            return _call('is_' if isinstance(op, ast.Is) else 'isnot', [a, b])
        if isinstance(op, (ast.In, ast.NotIn)):
            return _call('in_' if isinstance(op, ast.In) else 'notin', [a, b])
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return _call('eq' if isinstance(op, ast.Eq) else 'ne', [a, b])
        return _call('rel', [ast.Constant(type(op).__name__), a, b])

    def _boolop(self, fn, parts, node):
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = _call(fn, [self.site(node), p, _lam(r)])
        return r

    def visit_BoolOp(self, node):
        if not self.depth or any(_has(v, UNLAM) for v in node.values[1:]):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        fn = 'and_' if isinstance(node.op, ast.And) else 'or_'
        return ast.copy_location(self._boolop(fn, node.values, node), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Not):
            return ast.copy_location(_call('not_', [node.operand]), node)
        return node

    def visit_IfExp(self, node):
        bad = not self.depth or _has(node.body, UNLAM) or _has(node.orelse, UNLAM)
        self.generic_visit(node)
        if bad:
            return node
        return ast.copy_location(_call('ifexp', [self.site(node), node.test, _lam(node.body),
                                                 _lam(node.orelse)]), node)

    def _index(self, sl):
        if isinstance(sl, ast.Slice):
            return _call('slice', [self.visit(x) if x is not None else ast.Constant(None)
                                   for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
            return ast.Tuple([self._index(e) for e in sl.elts], ast.Load())
        return self.visit(sl)

    def visit_Subscript(self, node):
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        return ast.copy_location(_call('getitem', [self.visit(node.value),
                                                   self._index(node.slice)]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('mod', [node.left, node.right]), node)
        return node

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(_call('fmtval', [self.visit(v.value), ast.Constant(v.conversion),
                                              spec]))
        return ast.copy_location(_call('fjoin', [ast.List(parts, ast.Load())]), node)

    def visit_FormattedValue(self, node):
        return node

    def _nolam(self, node):
        return node


def transform(src, filename, modname):
    for maxmerge in (4, 3, 2, 1, 0):
        tree = ast.parse(src, filename)
        t = T(modname, maxmerge)
        tree.body = t.block(tree.body)
        ast.fix_missing_locations(tree)
        try:
            return compile(tree, filename, 'exec', dont_inherit=True)
        except SyntaxError as e:
            if 'nested' not in str(e) or not maxmerge:
                raise
