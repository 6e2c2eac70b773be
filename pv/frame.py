"""The frame rule for loops over a container.

A unit that runs a loop over a few arbitrary elements speaks for containers of
any length if no iteration can see another one.  This module decides, on the
current source of /repo, a syntactic sufficient condition for that:

* the loop is `for T in X`, `for T in X.items()/.values()/.keys()`,
  `for i in range(X)`, `range(const, X, const)` or a comprehension with one generator, X a name that is
  otherwise used on the way to the loop only in type tests and tests for None;
* names stored in the body are loop variables, or are stored by the body before
  they are read, and are not read elsewhere;
* the only other effect is `acc.append(e)`, `acc[k] = e`, `yield e` or
  `return <constant>`, where acc is an empty container made just before the
  loop, not read in the body, and returned as it is right after the loop;
* no attribute is stored, nothing is deleted, no while, with, global, break,
  walrus or augmented assignment, no mutable default;
* calls in the body are of functions, of methods of self or of a class, or of
  methods of the loop variables.

If it holds, the result of the loop is the map (or the search) of its body over
X, and the body on one arbitrary element decides it.  If it does not hold the
unit is not wrong: it is reported as bounded.
"""
import ast
import os


class No(Exception):
    pass


def _no(why, node=None):
    raise No(why + (f' (line {node.lineno})' if node is not None and hasattr(node, 'lineno') else ''))


def _find(root, target):
    mod, qual = target.split(':')
    path = os.path.join(root, *mod.split('.')) + '.py'
    if not os.path.exists(path):
        _no('no such module ' + mod)
    node = ast.parse(open(path).read())
    for part in qual.split('.'):
        hit = [c for c in node.body if isinstance(c, (ast.ClassDef, ast.FunctionDef)) and c.name == part]
        if len(hit) != 1:
            _no('no such function ' + qual)
        node = hit[0]
    if not isinstance(node, ast.FunctionDef):
        _no('not a function ' + qual)
    return node


def _names(node, ctx):
    return [n for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)]


def _loads(node, name):
    return [n for n in _names(node, ast.Load) if n.id == name]


def _typetests(test, name):
    """loads of `name` in test that are not type tests"""
    ok = set()
    for n in ast.walk(test):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'type') and n.args \
                and isinstance(n.args[0], ast.Name) and n.args[0].id == name:
            ok.add(id(n.args[0]))
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id == name \
                and all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops) \
                and all(isinstance(c, ast.Constant) for c in n.comparators):
            ok.add(id(n.left))
    return [n for n in _loads(test, name) if id(n) not in ok]


def _leaves(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise))


def _iter_name(it):
    if isinstance(it, ast.Name):
        return it.id
    if isinstance(it, ast.Call) and not it.keywords:
        f = it.func
        if isinstance(f, ast.Attribute) and f.attr in ('items', 'values', 'keys') and isinstance(f.value, ast.Name) \
                and not it.args:
            return f.value.id
        if isinstance(f, ast.Name) and f.id == 'range' and len(it.args) == 1 and isinstance(it.args[0], ast.Name):
            return it.args[0].id
        if isinstance(f, ast.Name) and f.id == 'range' and len(it.args) == 3 and isinstance(it.args[1], ast.Name) \
                and all(isinstance(a, ast.Constant) or isinstance(a, ast.Name) and a.id.isupper()
                        for a in (it.args[0], it.args[2])):
            return it.args[1].id
    _no('the loop runs over something else than a name', it)


def _calls(node, tvars):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                b = f.value.id
                if b == 'self' or b == 'cls' or b in tvars or b[:1].isupper():
                    continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant):
                continue
            _no('a call of a method of another object in the loop', n)


def _self_quiet(node):
    """self is only used through attributes that are not called"""
    called = {id(n.func) for n in ast.walk(node) if isinstance(n, ast.Call)}
    good = {id(n.value) for n in ast.walk(node) if isinstance(n, ast.Attribute) and id(n) not in called}
    return all(id(n) in good for n in _loads(node, 'self'))


def _before(path, name):
    """path: [(block, index)] from the function down to the loop"""
    if name == 'self':
        for block, i in path:
            for st in block[:i]:
                if not _self_quiet(st):
                    _no('self is examined before the loop', st)
            st = block[i]
            if isinstance(st, ast.If) and not _self_quiet(st.test):
                _no('self is examined before the loop', st)
        return
    for d, (block, i) in enumerate(path):
        for st in block[:i]:
            if isinstance(st, ast.If) and _leaves(st.body) and not st.orelse:
                if _typetests(st.test, name):
                    _no(f'{name} is examined before the loop', st)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)) and name in [n.id for n in _names(st, ast.Store)]:
                pass
            elif _loads(st, name):
                _no(f'{name} is used before the loop', st)
        st = block[i]
        if isinstance(st, ast.If) and _typetests(st.test, name):
            _no(f'{name} is examined before the loop', st)


def _after_ok(stmts, acc):
    """what follows the loop: nothing, or one return of a literal shape"""
    if not stmts:
        return
    if len(stmts) > 1 or not isinstance(stmts[0], ast.Return):
        _no('work after the loop', stmts[0])
    v = stmts[0].value
    if v is None:
        return
    for n in ast.walk(v):
        if not isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Tuple, ast.List, ast.Load)):
            _no('work after the loop', stmts[0])


def _check_for(fn, loop, path):
    if loop.orelse:
        _no('else of a loop', loop)
    x = _iter_name(loop.iter)
    tvars = {n.id for n in _names(loop.target, ast.Store)}
    if any(not isinstance(n, (ast.Name, ast.Tuple, ast.Store)) for n in ast.walk(loop.target)):
        _no('loop variable', loop)
    _before(path, x)
    block, i = path[-1]
    _after_ok(block[i + 1:], None)
    if _loads(ast.Module(block[i + 1:], []), x):
        _no(f'{x} is used after the loop', loop)
    accs = set()
    for st in block[:i]:
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            v, t = st.value, (st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else
                              getattr(st, 'target', None))
            empty = (isinstance(v, ast.List) and not v.elts) or (isinstance(v, ast.Dict) and not v.keys) or \
                (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict')
                 and not v.args and not v.keywords)
            if empty and isinstance(t, ast.Name):
                accs.add(t.id)
    allowed = set()
    seen = set()
    body = ast.Module(loop.body, [])
    for n in ast.walk(body):
        if isinstance(n, (ast.While, ast.With, ast.Global, ast.Nonlocal, ast.Break, ast.NamedExpr, ast.AugAssign, ast.Delete,
                          ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.Try, ast.For,
                          ast.Await, ast.YieldFrom)):
            _no(type(n).__name__ + ' in the loop', n)
        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
            _no('an attribute is stored', n)
        if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
            if not (isinstance(n.value, ast.Name) and n.value.id in accs):
                _no('an element of another object is stored', n)
            allowed.add(id(n.value))
            seen.add(n.value.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in accs and n.func.attr == 'append':
            allowed.add(id(n.func.value))
            seen.add(n.func.value.id)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            _no('a loop returns something else than a constant', n)
    for n in _names(body, ast.Load):
        if n.id in accs and id(n) not in allowed:
            _no(f'{n.id} is read in the loop', n)
        if n.id == x:
            _no(f'{x} is used in the loop', n) if not isinstance(loop.iter, ast.Call) or loop.iter.func.__class__ \
                is ast.Attribute else None
    stored = {n.id for n in _names(body, ast.Store)}
    for name in stored - tvars:
        first = None
        for st in loop.body:
            if any(n.id == name for n in ast.walk(st) if isinstance(n, ast.Name)):
                first = st
                break
        if not (isinstance(first, (ast.Assign, ast.AnnAssign)) and not _loads(first, name)):
            _no(f'{name} may carry a value to the next iteration', loop)
    for name in stored | tvars:
        inside = {id(n) for n in ast.walk(loop)}
        for n in _loads(fn, name):
            if id(n) in inside:
                continue
            other = [l for l in ast.walk(fn) if isinstance(l, ast.For) and l is not loop
                     and name in {m.id for m in _names(l.target, ast.Store)} and id(n) in {id(q) for q in ast.walk(l)}]
            if not other:
                _no(f'{name} is read after the loop', n)
    skip = {id(n) for n in ast.walk(body) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
            and isinstance(n.func.value, ast.Name) and n.func.value.id in accs}
    for st in ast.walk(body):
        if isinstance(st, ast.Call) and id(st) not in skip:
            f = st.func
            if not (isinstance(f, ast.Name) or (isinstance(f, ast.Attribute) and (
                    isinstance(f.value, ast.Constant) or isinstance(f.value, ast.Name) and (
                    f.value.id in ('self', 'cls') or f.value.id in tvars | (stored - accs) or f.value.id[:1].isupper())))):
                _no('a call of a method of another object in the loop', st)


def _check_comp(fn, comp, path):
    if len(comp.generators) != 1 or comp.generators[0].is_async:
        _no('nested comprehension', comp)
    g = comp.generators[0]
    if isinstance(comp, ast.ListComp) and not g.ifs and isinstance(g.target, ast.Name) and isinstance(comp.elt, ast.Name) \
            and comp.elt.id == g.target.id and isinstance(g.iter, ast.Attribute) and isinstance(g.iter.value, ast.Name):
        return      # a copy of a sequence
    x = _iter_name(g.iter)
    _before(path, x)
    st = path[-1][0][path[-1][1]]
    if not isinstance(st, (ast.Return, ast.Assign)):
        _no('a comprehension inside other work', comp)
    inside = {id(n) for n in ast.walk(comp)}
    if [n for n in _loads(st, x) if id(n) not in inside] or len(_loads(comp, x)) != 1:
        _no(f'{x} is used otherwise', comp)
    if any(isinstance(n, ast.NamedExpr) for n in ast.walk(comp)):
        _no('walrus', comp)
    tv = {n.id for n in _names(g.target, ast.Store)}
    for e in ([comp.key, comp.value] if isinstance(comp, ast.DictComp) else [comp.elt]) + g.ifs:
        _calls(e, tv)
    if isinstance(st, ast.Assign):
        block, i = path[-1]
        _after_ok(block[i + 1:], None)


def _walk(fn, block, path):
    for i, st in enumerate(block):
        p = path + [(block, i)]
        if isinstance(st, ast.For):
            _check_for(fn, st, p)
            continue
        if isinstance(st, ast.If):
            for n in ast.walk(st.test):
                if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                    _no('comprehension in a test', n)
            _walk(fn, st.body, p)
            _walk(fn, st.orelse, p)
            continue
        if isinstance(st, (ast.While, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal, ast.AugAssign,
                           ast.Delete)):
            _no(type(st).__name__, st)
        for n in ast.walk(st):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                _no('an attribute is stored', n)
            if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                _no('an element is stored', n)
            if isinstance(n, (ast.NamedExpr, ast.Lambda)):
                _no(type(n).__name__, n)
            if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                _check_comp(fn, n, p)


def check(root, target):
    """None if the rule holds for every loop of the target, else the reason"""
    try:
        fn = _find(root, target)
        if any(not isinstance(d, ast.Constant) for d in fn.args.defaults + [d for d in fn.args.kw_defaults if d]):
            _no('a default that is not a constant')
        _walk(fn, fn.body, [])
        return None
    except (No, SyntaxError, OSError) as e:
        return f'{target}: {e}'
