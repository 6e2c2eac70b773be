"""Mechanical instrumentation of the real source, on every run.

The code under verification is read from /repo/pyee, parsed, rewritten and
executed.  The rewrite is purely local and drops nothing:

  f(a, b)            -> __pv__.call(f, a, b)
  a[k], a[k] = v,
  del a[k]           -> __pv__.getitem / setitem / delitem
  x in y             -> __pv__.contains(y, x)
  f'{a}..'           -> __pv__.fstr(...)
  if e / while e /
  not e / assert e   -> truth value through __pv__.truth(e)
  for t in e: ..     -> loop driven by __pv__.loop(e, id)   (cut point)
  while e: ..        -> loop with __pv__.wloop(id)          (unroll counter)
  [..for..] etc.     -> __pv__.listcomp(...)                (cut point)
  except X: ..       -> preceded by `except Control: raise`

With concrete operands every hook performs the plain Python operation.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

HOOK = '__pv__'


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _hook(fn, *args):
    return ast.Call(func=ast.Attribute(value=_name(HOOK), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.qual = []
        self.fdepth = 0
        self.nloops = 0
        self.ntmp = 0

    # ---- scopes
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        self.qual.append(node.name)
        self.fdepth += 1
        saved = self.nloops
        self.nloops = 0
        body = self._body(node.body)
        enter = ast.Expr(_hook('enter', ast.Constant(f'{self.mod}:{".".join(self.qual)}')))
        # keep a docstring first
        if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], 'value', None), ast.Constant):
            body.insert(1, enter)
        else:
            body.insert(0, enter)
        node.body = body
        self.nloops = saved
        self.fdepth -= 1
        self.qual.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.fdepth += 1
        node.body = self.visit(node.body)
        self.fdepth -= 1
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.qual.append(node.name)
        saved, self.fdepth = self.fdepth, 0
        node.body = self._body(node.body)
        self.fdepth = saved
        self.qual.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    # ---- annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            return self.visit_Assign(ast.Assign(targets=[node.target], value=node.value), visited=True)
        node.target = self.visit(node.target)
        return node

    # ---- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'dir'):
            node.args = [self.visit(a) for a in node.args]
            return node
        func = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=_name(HOOK), attr='call', ctx=ast.Load()),
            args=[func] + args, keywords=kws), node)

    def visit_Starred(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self._slice(node.slice)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_hook('getitem', node.value, node.slice), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(func=_name('slice') if False else ast.Attribute(value=_name(HOOK), attr='mkslice', ctx=ast.Load()),
                            args=[self.visit(s.lower) if s.lower else none,
                                  self.visit(s.upper) if s.upper else ast.Constant(None),
                                  self.visit(s.step) if s.step else ast.Constant(None)], keywords=[])
        return self.visit(s)

    def visit_Compare(self, node):
        node.left = self.visit(node.left)
        node.comparators = [self.visit(c) for c in node.comparators]
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.copy_location(_hook('contains', node.comparators[0], node.left), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(_hook('not_', _hook('contains', node.comparators[0], node.left)), node)
            if isinstance(node.ops[0], ast.Is):
                return ast.copy_location(_hook('is_', node.left, node.comparators[0]), node)
            if isinstance(node.ops[0], ast.IsNot):
                return ast.copy_location(_hook('not_', _hook('is_', node.left, node.comparators[0])), node)
            if isinstance(node.ops[0], ast.Eq):
                return ast.copy_location(_hook('eq', node.left, node.comparators[0]), node)
            if isinstance(node.ops[0], ast.NotEq):
                return ast.copy_location(_hook('ne', node.left, node.comparators[0]), node)
            op = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}.get(type(node.ops[0]))
            if op and not isinstance(node.left, ast.Constant) and not isinstance(node.comparators[0], ast.Constant):
                return ast.copy_location(_hook(op, node.left, node.comparators[0]), node)
        return node

    def visit_BinOp(self, node):
        node.left = self.visit(node.left)
        node.right = self.visit(node.right)
        op = {ast.Mod: 'mod', ast.Add: 'add', ast.Mult: 'mul', ast.BitAnd: 'and_', ast.BitOr: 'or_',
              ast.Sub: 'sub', ast.BitXor: 'xor'}.get(type(node.op))
        if op is not None:
            return ast.copy_location(_hook(op, node.left, node.right), node)
        return node

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_hook('not_', node.operand), node)
        return node

    def visit_IfExp(self, node):
        node.test = _hook('truth', self.visit(node.test))
        node.body = self.visit(node.body)
        node.orelse = self.visit(node.orelse)
        return node

    def _test(self, e):
        """a test position: only the truth value matters"""
        if isinstance(e, ast.BoolOp):
            e.values = [self._test(v) for v in e.values]
            return e
        return _hook('truth', self.visit(e))

    def visit_If(self, node):
        node.test = self._test(node.test)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse) if node.orelse else []
        return node

    def visit_Assert(self, node):
        node.test = self._test(node.test)
        if node.msg is not None:
            node.msg = self.visit(node.msg)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_hook('fstr', *parts), node)

    def _comp(self, kind, node, elt):
        if self.fdepth == 0 or len(node.generators) != 1 or node.generators[0].is_async or \
                any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
            return None
        g = node.generators[0]
        if any(isinstance(x, ast.Starred) for x in ast.walk(g.target)):
            return None
        it = self.visit(g.iter)
        self.nloops += 1
        lid = f'{self.mod}:{".".join(self.qual)}:{kind}{self.nloops}'
        elt = self.visit(elt)
        conds = [_hook('truth', self.visit(i)) for i in g.ifs]
        cond = ast.Constant(True)
        for k in conds:
            cond = k if isinstance(cond, ast.Constant) else ast.BoolOp(op=ast.And(), values=[cond, k])
        self.ntmp += 1
        if isinstance(g.target, ast.Name):
            arg = g.target.id
            mk = lambda body: ast.Lambda(args=_args([arg]), body=body)
        else:
            names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
            flat = isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts)
            if not flat:
                return None
            tmp = f'_pv_t{self.ntmp}'
            mk = lambda body: ast.Lambda(args=_args([tmp]), body=ast.Call(
                func=ast.Lambda(args=_args(names), body=body), args=[ast.Starred(value=_name(tmp), ctx=ast.Load())], keywords=[]))
        r = ast.Call(func=ast.Attribute(value=_name(HOOK), attr='comp', ctx=ast.Load()),
                     args=[ast.Constant(kind), it, mk(elt), mk(cond) if g.ifs else ast.Constant(None), ast.Constant(lid)],
                     keywords=[])
        return ast.copy_location(r, node)

    def visit_ListComp(self, node):
        return self._comp('list', node, node.elt) or self.generic_visit(node)

    def visit_GeneratorExp(self, node):
        return self._comp('gen', node, node.elt) or self.generic_visit(node)

    def visit_SetComp(self, node):
        return self._comp('set', node, node.elt) or self.generic_visit(node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            e = [v] if k is None else [k, v]
            pairs.append(ast.Tuple(elts=e, ctx=ast.Load()))
        return _hook('mkdict', ast.Tuple(elts=pairs, ctx=ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return _hook('mkset', ast.Tuple(elts=node.elts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return self._comp('dict', node, elt) or self.generic_visit(node)

    # ---- statements
    def visit_Assign(self, node, visited=False):
        if not visited:
            node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            v = node.value
            return ast.copy_location(ast.Expr(_hook('setitem_v', v, self.visit(t.value), self._slice(t.slice))), node)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            self.ntmp += 1
            o, k = f'_pv_o{self.ntmp}', f'_pv_k{self.ntmp}'
            cur = _hook('getitem', _name(o), _name(k))
            return [
                ast.Assign(targets=[_name(o, ast.Store())], value=self.visit(t.value)),
                ast.Assign(targets=[_name(k, ast.Store())], value=self._slice(t.slice)),
                ast.Expr(_hook('setitem_v', ast.BinOp(left=cur, op=node.op, right=node.value), _name(o), _name(k))),
            ]
        if isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)) and isinstance(node.target, ast.Name):
            op = {ast.BitAnd: 'and_', ast.BitOr: 'or_', ast.Sub: 'sub', ast.BitXor: 'xor'}[type(node.op)]
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_hook('inplace', ast.Constant(op), _name(node.target.id), node.value)), node)
        if isinstance(node.op, ast.Add) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_hook('iadd', _name(node.target.id), node.value)), node)
        node.target = self.visit(node.target)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_hook('delitem', self.visit(t.value), self._slice(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_While(self, node):
        if self.fdepth == 0:
            return self.generic_visit(node)
        self.nloops += 1
        self.ntmp += 1
        k = f'_pv_w{self.ntmp}'
        lid = f'{self.mod}:{".".join(self.qual)}:while{self.nloops}'
        test = self._test(node.test)
        body = self._body(node.body)
        orelse = self._body(node.orelse) if node.orelse else []
        head = [
            ast.Expr(ast.Call(func=ast.Attribute(value=_name(k), attr='head', ctx=ast.Load()), args=[], keywords=[])),
            ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=orelse + [ast.Break()], orelse=[]),
        ]
        return [
            ast.Assign(targets=[_name(k, ast.Store())], value=_hook('wloop', ast.Constant(lid))),
            ast.While(test=ast.Constant(True), body=head + body, orelse=[]),
        ]

    def visit_For(self, node):
        if self.fdepth == 0:
            return self.generic_visit(node)
        names = _stored(node.body) | _stored([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        glob = {n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        names = sorted(names - glob)
        tnames = sorted(_stored([ast.Assign(targets=[node.target], value=ast.Constant(0))]))
        self.nloops += 1
        self.ntmp += 1
        k = f'_pv_f{self.ntmp}'
        lid = f'{self.mod}:{".".join(self.qual)}:for{self.nloops}'
        it = self.visit(node.iter)
        target = self.visit(node.target) if not isinstance(node.target, ast.Name) else node.target
        body = self._body(node.body)
        orelse = self._body(node.orelse) if node.orelse else []

        def restore():
            out = []
            for n in names:
                out.append(ast.If(
                    test=ast.Compare(left=ast.Constant(n), ops=[ast.In()],
                                     comparators=[ast.Attribute(value=_name(k), attr='restore', ctx=ast.Load())]),
                    body=[ast.Assign(targets=[_name(n, ast.Store())],
                                     value=ast.Subscript(value=ast.Attribute(value=_name(k), attr='restore', ctx=ast.Load()),
                                                         slice=ast.Constant(n), ctx=ast.Load()))],
                    orelse=[]))
            return out
        nxt = ast.Call(func=ast.Attribute(value=_name(k), attr='next', ctx=ast.Load()),
                       args=[ast.Call(func=_name('locals'), args=[], keywords=[])], keywords=[])
        return [
            ast.Assign(targets=[_name(k, ast.Store())],
                       value=_hook('loop', it, ast.Constant(lid), ast.Constant(tuple(names)), ast.Constant(tuple(tnames)))),
            ast.While(test=ast.Constant(True), body=[
                ast.If(test=ast.UnaryOp(op=ast.Not(), operand=nxt), body=restore() + orelse + [ast.Break()], orelse=[]),
                *restore(),
                ast.Assign(targets=[target], value=ast.Attribute(value=_name(k), attr='item', ctx=ast.Load())),
                *body,
            ], orelse=[]),
        ]

    def visit_Try(self, node):
        node.body = self._body(node.body)
        for hd in node.handlers:
            if hd.type is not None:
                hd.type = self.visit(hd.type)
            hd.body = self._body(hd.body)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(
                type=ast.Attribute(value=_name(HOOK), attr='Control', ctx=ast.Load()), name=None, body=[ast.Raise()]))
        node.orelse = self._body(node.orelse) if node.orelse else []
        node.finalbody = self._body(node.finalbody) if node.finalbody else []
        if node.finalbody and self.mod.startswith('vc.'):
            # a harness takes its stand-ins away also where the path was given up
            self.ntmp += 1
            k = f'_pv_dead{self.ntmp}'
            node.finalbody = [ast.Assign(targets=[_name(k, ast.Store())], value=_hook('cleanup')), ast.Try(
                body=node.finalbody, handlers=[], orelse=[], finalbody=[ast.Expr(_hook('cleaned', _name(k)))])]
        return node


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None,
                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def _stored(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            # `except .. as e` unbinds e afterwards
            for s in n.body:
                self.visit(s)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    for s in stmts:
        V().visit(s)
    return out


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__[HOOK] = rt
        module.__file__ = self.path
        exec(transform(src, self.path, module.__name__), module.__dict__)

    def get_code(self, fullname):
        with open(self.path, encoding='utf-8') as f:
            return compile(f.read(), self.path, 'exec', dont_inherit=True)

    def get_source(self, fullname):
        with open(self.path, encoding='utf-8') as f:
            return f.read()


class Finder(importlib.abc.MetaPathFinder):
    """roots: {top-level package: directory containing it}"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_loader(fullname, Loader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_loader(fullname, Loader(base + '.py'), origin=base + '.py')
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
