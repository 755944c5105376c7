"""Source-to-source instrumentation: the real Python source is parsed, and every
operation whose meaning a symbolic value can change (operators, comparisons,
truth tests, subscripts, calls, f-strings, assertions) is routed through the
runtime `_nsym_`.  Control flow, scoping, classes, exceptions and generators stay
native Python, so any way of writing the code keeps its meaning."""
import ast

RT = '_nsym_'

BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
       ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
       ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
UN = {ast.UAdd: '+', ast.USub: '-', ast.Invert: '~'}


def _rt(name, *args, keywords=None):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=keywords or [])


def _const(v):
    return ast.Constant(value=v)


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.tmp = 0
        self.fn_stack = []      # first-argument names of the enclosing functions
        self.scope = ['module']
        self.lambda_mode = 0    # >0: walrus is illegal here
        self.loops = 0          # >0: evaluated over and over
        self.functions = []     # qualified names of the functions encoded
        self.qual = []

    def fresh(self):
        self.tmp += 1
        return '_nt%d_' % self.tmp

    # ---- scopes -------------------------------------------------------
    def _fn(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        first = None
        a = node.args
        if a.posonlyargs:
            first = a.posonlyargs[0].arg
        elif a.args:
            first = a.args[0].arg
        self.fn_stack.append(first)
        self.scope.append('function')
        self.qual.append(node.name)
        self.functions.append(('.'.join(self.qual), node.lineno))
        saved, self.lambda_mode = self.lambda_mode, 0
        loops, self.loops = self.loops, 0
        body = []
        for i, st in enumerate(node.body):
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        node.body = body
        self.loops = loops
        self.lambda_mode = saved
        self.qual.pop()
        self.scope.pop()
        self.fn_stack.pop()
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.scope.append('class')
        self.qual.append(node.name)
        loops, self.loops = self.loops, 0
        self.generic_visit(node)
        self.loops = loops
        self.qual.pop()
        self.scope.pop()
        return node

    def visit_Lambda(self, node):
        node.args = self.visit(node.args)
        self.scope.append('function')
        saved, self.lambda_mode = self.lambda_mode, 0
        loops, self.loops = self.loops, 1
        node.body = self.visit(node.body)
        self.loops = loops
        self.lambda_mode = saved
        self.scope.pop()
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    # ---- comprehensions ----------------------------------------------
    def _comp(self, node):
        for g in node.generators:
            self.lambda_mode += 1
            g.iter = self.visit(g.iter)
            self.lambda_mode -= 1
            inner = self.scope[-1] == 'function'
            self.loops += inner
            g.ifs = [_rt('truth', self._cond(c)) for c in g.ifs]
            self.loops -= inner
        incls = self.scope[-1] == 'class'
        self.loops += inner
        if incls:
            self.lambda_mode += 1
        if isinstance(node, ast.DictComp):
            node.key = self.visit(node.key)
            node.value = self.visit(node.value)
        else:
            node.elt = self.visit(node.elt)
        self.loops -= inner
        if incls:
            self.lambda_mode -= 1
        return node

    def _cond(self, c):
        return self.visit(c)

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    def visit_SetComp(self, node):
        node = self._comp(node)
        return _rt('mkset', ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_DictComp(self, node):
        node = self._comp(node)
        return _rt('mkdict', ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return _rt('mkset', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            items = []
            for k, v in zip(node.keys, node.values):
                items.append(ast.Tuple(elts=[_const(None if k is not None else '**'),
                                             k if k is not None else _const(None), v], ctx=ast.Load()))
            return _rt('mkdict3', ast.List(elts=items, ctx=ast.Load()))
        return _rt('mkdict', ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                            for k, v in zip(node.keys, node.values)], ctx=ast.Load()))

    # ---- operators ----------------------------------------------------
    def visit_BinOp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_rt('bin', _const(BIN[type(node.op)]), node.left, node.right), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_rt('not_', node.operand), node)
        if isinstance(node.operand, ast.Constant):
            return node
        return ast.copy_location(_rt('un', _const(UN[type(node.op)]), node.operand), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return ast.copy_location(
                _rt('cmp', _const(CMP[type(node.ops[0])]), node.left, node.comparators[0]), node)
        # a < b < c  ->  and_(cmp(a, t1 := b), cmp(t1, c))
        if self.lambda_mode:
            args = [node.left]
            for op, c in zip(node.ops, node.comparators):
                args.append(ast.Tuple(elts=[_const(CMP[type(op)]),
                                            ast.Lambda(args=_noargs(), body=c)], ctx=ast.Load()))
            return ast.copy_location(_rt('chain', *args), node)
        left = node.left
        parts = []
        for i, (op, c) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1:
                t = self.fresh()
                parts.append(_rt('cmp', _const(CMP[type(op)]), left,
                                 ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()), value=c)))
                left = ast.Name(id=t, ctx=ast.Load())
            else:
                parts.append(_rt('cmp', _const(CMP[type(op)]), left, c))
        return ast.copy_location(self._boolop(True, parts), node)

    def _boolop(self, is_and, values):
        acc = values[-1]
        for v in reversed(values[:-1]):
            t = self.fresh()
            test = _rt('truth', ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()), value=v))
            tv = ast.Name(id=t, ctx=ast.Load())
            acc = ast.IfExp(test=test, body=acc, orelse=tv) if is_and else \
                ast.IfExp(test=test, body=tv, orelse=acc)
        return acc

    def visit_BoolOp(self, node):
        merge = self.loops and all(_pure(v) for v in node.values)
        self.generic_visit(node)
        is_and = isinstance(node.op, ast.And)
        if merge:
            return ast.copy_location(
                _rt('merge_bool', _const(is_and), node.values[0],
                    *[ast.Lambda(args=_noargs(), body=v) for v in node.values[1:]]), node)
        if self.lambda_mode:
            return ast.copy_location(
                _rt('and_' if is_and else 'or_', node.values[0],
                    *[ast.Lambda(args=_noargs(), body=v) for v in node.values[1:]]), node)
        return ast.copy_location(self._boolop(is_and, node.values), node)

    def visit_AugAssign(self, node):
        op = BIN[type(node.op)]
        value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            new = ast.Assign(targets=[t], value=_rt('ibin', _const(op), ast.Name(id=t.id, ctx=ast.Load()), value))
            return _fix(ast.copy_location(new, node))
        o = self.fresh()
        st = [ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=self.visit(t.value))]
        ov = ast.Name(id=o, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            cur = ast.Attribute(value=ov, attr=t.attr, ctx=ast.Load())
            tgt = ast.Attribute(value=ast.Name(id=o, ctx=ast.Load()), attr=t.attr, ctx=ast.Store())
        else:
            i = self.fresh()
            st.append(ast.Assign(targets=[ast.Name(id=i, ctx=ast.Store())], value=self.visit(t.slice)))
            iv = ast.Name(id=i, ctx=ast.Load())
            cur = _rt('getitem', ov, iv)
            tgt = ast.Subscript(value=ast.Name(id=o, ctx=ast.Load()), slice=ast.Name(id=i, ctx=ast.Load()),
                                ctx=ast.Store())
        st.append(ast.Assign(targets=[tgt], value=_rt('ibin', _const(op), cur, value)))
        return [_fix(ast.copy_location(s, node)) for s in st]

    # ---- tests --------------------------------------------------------
    def visit_If(self, node):
        self.generic_visit(node)
        node.test = _rt('truth', node.test)
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        self.loops += 1
        node.body = self._block(node.body)
        self.loops -= 1
        node.orelse = self._block(node.orelse)
        return node

    def _block(self, body):
        out = []
        for b in body:
            r = self.visit(b)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_While(self, node):
        self.loops += 1
        self.generic_visit(node)
        self.loops -= 1
        node.test = _rt('truth', node.test)
        return node

    def visit_IfExp(self, node):
        merge = self.loops and _pure(node)
        self.generic_visit(node)
        if merge:
            return ast.copy_location(_rt('merge_if', node.test, ast.Lambda(args=_noargs(), body=node.body),
                                         ast.Lambda(args=_noargs(), body=node.orelse)), node)
        node.test = _rt('truth', node.test)
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        exc = ast.Call(func=ast.Name(id='AssertionError', ctx=ast.Load()),
                       args=[node.msg] if node.msg is not None else [], keywords=[])
        new = ast.If(test=_rt('not_', _rt('truth', node.test)),
                     body=[ast.Raise(exc=exc, cause=None)], orelse=[])
        return _fix(ast.copy_location(new, node))

    def visit_match_case(self, node):
        self.generic_visit(node)
        if node.guard is not None:
            node.guard = _rt('truth', node.guard)
        return node

    def visit_MatchValue(self, node):
        return node

    # ---- subscripts, calls, strings ----------------------------------
    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            self.generic_visit(node)
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(func=ast.Name(id=RT + 'slice', ctx=ast.Load()),
                              args=[sl.lower or _const(None), sl.upper or _const(None), sl.step or _const(None)],
                              keywords=[])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return node
            return ast.copy_location(_rt('getitem', node.value, sl), node)
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.keywords:
            if not node.args and self.fn_stack and self.fn_stack[-1]:
                return ast.copy_location(
                    _rt('super_', ast.Name(id='__class__', ctx=ast.Load()),
                        ast.Name(id=self.fn_stack[-1], ctx=ast.Load())), node)
            if len(node.args) == 2:
                self.generic_visit(node)
                return ast.copy_location(_rt('super_', *node.args), node)
        if isinstance(node.func, ast.Name) and node.func.id in ('locals', 'globals', 'vars', 'eval', 'exec', 'dir') \
                and not node.args:
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr='call', ctx=ast.Load()),
                     args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else _const('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), _const(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_rt('fstr', ast.List(elts=parts, ctx=ast.Load())), node)

    # ---- exceptions ---------------------------------------------------
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name(id='Exception', ctx=ast.Load())
        else:
            for n in ast.walk(node.type):
                if isinstance(n, ast.Name) and n.id == 'BaseException':
                    n.id = 'Exception'
        return node


def _pure(n):
    """an expression that calls nothing (of the program's own text) and binds nothing"""
    for m in ast.walk(n):
        if isinstance(m, (ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.IfExp, ast.Subscript, ast.operator, ast.unaryop,
                          ast.boolop, ast.cmpop, ast.expr_context)):
            continue
        if isinstance(m, (ast.Name, ast.Attribute)) and isinstance(m.ctx, ast.Load):
            continue
        if isinstance(m, ast.Constant) and (m.value is None or isinstance(m.value, (int, bytes, str))):
            continue
        return False
    return True


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def _fix(n):
    return n


def compile_instrumented(source, filename):
    tree = ast.parse(source, filename)
    ins = Instrument()
    tree = ins.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True), ins.functions
