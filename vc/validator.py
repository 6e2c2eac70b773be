"""C19: accepted packages import only what is allowed.

Two levels: code objects as records with arbitrary operands and tables, and
real packages compiled by the interpreter."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import World, Message, outcome, px, IconScoreLoader
from vc.loading import REAL_LOAD
from pyexec.base import exception as X
from pyexec.iconscore.score_package_validator import ScorePackageValidator as V

SV = 'pyexec.iconscore.score_package_validator:ScorePackageValidator.'
CODE = SV + '_validate_import ' + SV + '_validate_import_from_code '
CONST = SV + '_validate_import_from_const ' + SV + '_validate_blacklist_keyword_from_names '
FILES = SV + 'execute ' + SV + '_make_custom_import_list '

FORBIDDEN = ['exec', 'eval', 'compile', '__import__']
LOAD, NAME, FROM, STAR, INTRINSIC, EXT, POP = 100, 108, 109, 84, 173, 144, 1


class Record:
    """a code object"""

    def __init__(self, code, names, consts):
        self.co_code = code
        self.co_names = tuple(names)
        self.co_consts = tuple(consts)


def op(o, arg=0):
    return [o, arg]


def assemble(h, ops):
    """bytes of instructions; operands may be symbolic"""
    out = b''
    for o in ops:
        out = spec.cat(out, spec.byte(o))
    return out


OTHER = [1, 90, 101]


@unit('C19', CODE, cost=20)
def validator_import(h):
    """one import instruction, any operands, after up to three others"""
    pre = h.choose('before', [0, 1, 2, 3])
    ops, o = [], h.choose('op', OTHER)
    for i in range(pre):
        # an operand that looks like an import is none
        ops += [o, h.choose(f'arg{i}', [0, NAME])]
    level = h.int('level', lo=0, hi=5)
    name = h.str('name')
    kind = h.choose('from', ['none', 'star', 'one', 'two', 'star and one'])
    other, other2 = h.str('imported'), h.str('imported2')
    froms = {'none': None, 'star': ('*',), 'one': (other,), 'two': (other, other2), 'star and one': ('*', other)}[kind]
    if kind in ('one', 'two'):
        h.assume(other != '*')
    names = ['x', name, 'iconservice', 'os']
    consts = ['doc', 0, level, froms, ('a', 'b'), None, 1]
    wide = h.choose('extended', [False, True])
    if wide:
        # the same level constant beyond the first 256
        consts = ['doc', 0, 1] + consts[3:] + [1] * (256 - len(consts)) + [0, 0, level]
        ops += op(EXT, 1)
    ops += op(LOAD, 2)
    ops += op(LOAD, 3) + op(NAME, 1)
    if kind == 'none':
        ops += op(h.choose('next', [90, FROM]), 0) + op(POP)
    elif kind == 'star':
        ops += h.choose('next', [op(STAR), op(INTRINSIC, 2)]) + op(POP)
    else:
        ops += op(FROM, 1) + op(90, 1) + op(POP)
    o = outcome(V._validate_import_from_code, Record(assemble(h, ops), names, consts))
    base = And(name == 'iconservice', kind in ('none', 'star'))
    h.check('accepted imports are allowed', Implies(o[0] == 'ok', Or(level > 0, name == 'iconservice')))
    if not wide:
        h.check('allowed imports are accepted', Implies(Or(level > 0, base), o[0] == 'ok'))


@unit('C19', CODE)
def validator_odd(h):
    """import instructions that do not get constants, or get an odd list"""
    load = [h.choose('first', [LOAD, 101, EXT, 124]), h.choose('second', [LOAD, 101, EXT, 124])]
    froms = h.choose('from', [None, ('*',), ('x',)])
    nxt = h.choose('next', [op(90), op(FROM), op(STAR), op(INTRINSIC, 2), op(INTRINSIC, 1), op(POP)])
    name = h.str('name')
    ops = op(90) + [load[0], 0] + [load[1], 1] + op(NAME, 0) + nxt + op(POP)
    o = outcome(V._validate_import_from_code, Record(assemble(h, ops), [name], [0, froms]))
    h.check('accepted imports are allowed', Implies(o[0] == 'ok', And(name == 'iconservice', load == [LOAD, LOAD])))
    star = nxt == op(STAR) or nxt == op(INTRINSIC, 2)
    if froms == ('x',):
        h.check('a name is not a star', Implies(star, o[0] != 'ok'))


@unit('C19', CODE)
def validator_two(h):
    """every import instruction of a code object is inspected"""
    names, consts, ops = [], [0, None, 1], []
    ok = True
    n = h.choose('imports', [1, 2, 3, 4])
    for i in range(n):
        name = h.str(f'name{i}')
        rel = h.choose(f'relative{i}', [False, True])
        names.append(name)
        ops += op(LOAD, 2 if rel else 0) + op(LOAD, 1) + op(NAME, i) + op(90, i)
        if not rel:
            ok = And(ok, name == 'iconservice')
        if h.choose(f'gap{i}', [False, True]):
            ops += op(116, NAME)
    o = outcome(V._validate_import_from_code, Record(assemble(h, ops), names, consts))
    h.check('accepted exactly when allowed', Iff(o[0] == 'ok', ok))


class Window:
    """the instructions around an import at an arbitrary place of a code object
    of any length: bytes are asked for as they are needed"""

    def __init__(self, h, at, ops):
        self.h, self.at = h, at
        self.seen = dict(ops)

    def __getitem__(self, i):
        for k in range(-20, 8):
            if i - self.at == k:
                if k not in self.seen:
                    self.seen[k] = self.h.int(f'byte{k}', 0, 255)
                return self.seen[k]
        self.h.unsupported('an instruction far from the import is read')


class Table:
    def __init__(self, h, rows):
        self.h, self.rows = h, rows

    def __getitem__(self, i):
        for k, v in self.rows:
            if i == k:
                return v
        self.h.unsupported('another constant or name is read')


@unit('C19', SV + '_validate_import', cost=15)
def validator_import_any(h):
    """one import instruction at any place of any code, any tables: what the
    interpreter imports is allowed if the instruction is accepted"""
    at = h.int('at', 4)
    ext = h.choose('extended', [0, 1, 2, 3])
    h.assume(at >= 6 + 2 * ext)
    ops = {0: NAME, 1: h.int('arg', 0, 255), -1: h.int('arg_from', 0, 255), -3: h.int('arg_level', 0, 255)}
    index = ops[-3]
    for i in range(ext):
        ops[-6 - 2 * i] = EXT
        ops[-5 - 2 * i] = h.int(f'ext{i}', 0, 255)
        index = index + ops[-5 - 2 * i] * 256 ** (i + 1)
    w = Window(h, at, ops)
    if w[at - 6 - 2 * ext] == EXT:
        return
    level = h.int('level', 0)
    name = h.str('name')
    x, y = h.str('imported'), h.str('imported2')
    froms = h.choose('from', [None, ('*',), (x,), (x, y)])
    h.assume(index != ops[-1])
    consts = Table(h, [(index, level), (ops[-1], froms)])
    o = outcome(V._validate_import, at, w, Table(h, [(ops[1], name)]), consts)
    loads = And(w[at - 2] == LOAD, w[at - 4] == LOAD)
    h.check('accepted imports are allowed', Implies(o[0] == 'ok', And(loads, Or(level > 0, name == 'iconservice'))))
    h.check('relative imports are accepted', Implies(And(loads, level > 0), o[0] == 'ok'))
    if froms is None:
        h.check('allowed imports are accepted', Implies(And(loads, name == 'iconservice'), o[0] == 'ok'))


@unit('C19', SV + '_validate_import_from_code', frame=SV + '_validate_import_from_code')
def validator_code_step(h):
    """each import instruction of a code object is judged; any length by the
    frame rule"""
    calls = []

    class Step(V):
        @classmethod
        def _validate_import(cls, at, code, names, consts):
            calls.append((at, code, names, consts))
            for b, i in bad:
                if b and at == i:
                    raise X.IllegalFormatException('bad')

    n = h.choose('instructions', [0, 1, 2, 3])
    body, bad = [], []
    for i in range(n):
        k = h.choose(f'import{i}', [True, False])
        body.append(NAME if k else h.choose(f'op{i}', [LOAD, 90]))
        body.append(NAME if not k else 0)
        bad.append((k and (True if h.bool(f'bad{i}') else False), i * 2 + 4))
    c = Record(bytes([LOAD, 0, LOAD, 1] + body), ['x'], [0, None])
    o = outcome(Step._validate_import_from_code, c)
    if len(calls) == 0 and any([body[2 * i] == NAME for i in range(n)]):
        h.unsupported('imports are judged elsewhere')
    h.check('refused iff one is', Iff(o[0] == 'ok', Not(Or(False, *[b for b, i in bad]))))
    for at, code, names, consts in calls:
        h.check('with the code and tables', And(list(code) == list(c.co_code), names == c.co_names, consts == c.co_consts))


@unit('C19', CONST, frame=SV + '_validate_import_from_const ' + SV + '_validate_blacklist_keyword_from_names')
def validator_const_step(h):
    """code nested to any depth, any number of constants and names: constants of
    which one is code with an arbitrary import, arbitrary names and constants
    of its own that are fine or not (induction over the depth, frame rule)"""
    below = [0, None, 'constants of the inner code']
    inner_bad = True if h.bool('inner_bad') else False
    calls = []

    class Step(V):
        @classmethod
        def _validate_import_from_const(cls, consts):
            if consts is below:
                calls.append(1)
                if inner_bad:
                    raise X.IllegalFormatException('bad')
                return None
            return V._validate_import_from_const.__func__(cls, consts)

    name, other = h.str('name'), h.str('other')
    c = Record(bytes([LOAD, 0, LOAD, 1, NAME, 0, 90, 0]), [name] + h.choose('names', [[], [other], ['x', other], [other, 'x']]), [])
    used = other if len(c.co_names) > 1 else 'x'
    c.co_consts = below
    consts = h.choose('constants', [[c], [0, c], [c, 'exec'], ['exec', None, c, ('eval',)]])
    o = outcome(Step._validate_import_from_const, tuple(consts))
    bad = Or(name != 'iconservice', inner_bad, *[used == f for f in FORBIDDEN])
    if len(calls) == 0 and o[0] == 'ok':
        h.unsupported('the recursion does not go through _validate_import_from_const')
    h.check('accepted exactly when allowed', Iff(o[0] == 'ok', Not(bad)))


@unit('C19', CONST + FILES, cost=20, bounded='code objects nested up to depth 3')
def validator_nested(h):
    """code of functions and classes, at any place"""
    depth = h.choose('depth', [0, 1, 2, 3])
    what = h.choose('what', ['import', 'name', 'both'])
    name = h.str('name')
    where = h.choose('names before', [0, 1, 2]) if what == 'name' else 0
    sib, imports = h.choose('siblings', [0, 1, 2]), h.choose('imports', [False, True])
    import_ops = [LOAD, 0, LOAD, 1, NAME, 0, 90, 0]
    good = Record(bytes(import_ops), ['iconservice', 'x'], [0, None])
    names = ['iconservice', 'print', 'x']
    if what == 'import':
        names[0] = name
    elif what == 'name':
        names.insert(where, name) if where else names.append(name)
    else:
        names[0] = name
        names.append(name)
    c = Record(bytes(import_ops), names, [0, None, 'exec', 3])
    for i in range(depth):
        consts = [0, None] + [good] * (sib == 1) + [c] + [good] * (sib == 2) + [('exec',), 'f']
        c = Record(bytes(import_ops if imports else [90, 0]), ['iconservice', 'f'], consts)
    got = []

    class Loader:
        def __init__(self, *a):
            got.append(a)

        def get_code(self, n):
            return c
    o = run_on(h, Loader)
    bad = False
    if what != 'name':
        bad = name != 'iconservice'
    if what != 'import':
        bad = Or(bad, *[name == f for f in FORBIDDEN])
    if len(got) == 0:
        h.unsupported('the code of a file is obtained in another way')
    h.check('accepted exactly when allowed', Iff(o[0] == 'ok', Not(bad)))


def run_on(h, loader):
    """validate a package of one file whose code is given by the loader"""
    import importlib.abc
    import importlib.machinery
    saved = importlib.machinery.SourceFileLoader
    importlib.machinery.SourceFileLoader = loader
    try:
        return in_scratch({'main.py': ''}, V.execute)
    finally:
        importlib.machinery.SourceFileLoader = saved


def in_scratch(files, f, compiled=()):
    """f(directory) on a package with these files"""
    import os
    import shutil
    import sys
    import tempfile
    import py_compile
    top = tempfile.mkdtemp(prefix='pvscore')
    path, mods = list(sys.path), set(sys.modules)
    try:
        d = top + '/' + os.path.basename(top) + 'p'
        for n, s in files.items():
            p = d + '/' + n
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as out:
                out.write(s)
        for n in compiled:
            py_compile.compile(d + '/' + n, cfile=d + '/' + n + 'c')
            os.remove(d + '/' + n)
        return outcome(f, d)
    finally:
        sys.path[:] = path
        for m in set(sys.modules) - mods:
            if m.startswith(os.path.basename(top)):
                del sys.modules[m]
        shutil.rmtree(top)


PLACES = ['main.py', 'a.py', 'zz.py', '__init__.py', 'sub/__init__.py', 'sub/mod.py', 'sub/deep/er/mod.py', 'nopkg/x.py']
WRAP = {
    'module': '{}\n',
    'last': 'x = 1\ny = [i for i in range(3)]\ndef g():\n    pass\n{}\n',
    'if': 'import iconservice\nif iconservice:\n    {}\n',
    'try': 'try:\n    {}\nexcept Exception:\n    pass\n',
    'function': 'def f():\n    x = 1\n    {}\n',
    'class': 'class A:\n    {}\n',
    'method': 'class A:\n    def f(self):\n        pass\n    def g(self):\n        if self:\n            {}\n',
    'inner': 'def f():\n    def g():\n        class B:\n            def h(self):\n                {}\n    return g\n',
    'inner class': 'class A:\n    class B:\n        class C:\n            {}\n',
    'async': 'async def f():\n    {}\n',
    'generator': 'def f():\n    yield 1\n    {}\n',
}
GOOD = ['import iconservice', 'import iconservice as x', 'from . import a', 'from .a import b', 'from .sub.mod import b as c',
        'from .. import a', 'x = "exec"', 'y.executes', 'x = 108']
STARS = ['from iconservice import *', 'from .a import *']
BAD = ['import os', 'import os.path', 'import os as iconservice', 'import iconservice, os', 'import os, iconservice',
       'from os import path', 'from os.path import *', 'from os import path as x, sep', 'import iconservice2', 'import icon',
       'import iconservice.x', 'from iconservice.x import y', 'import sys', 'from importlib import import_module',
       'import pyexec', 'exec("1")', 'eval("1")', 'compile("1", "", "exec")', '__import__("os")', 'x = exec',
       'y = [eval(i) for i in "12"]', 'z = lambda: __import__', 'x.compile()', 'y = {k: compile for k in "1"}',
       'from iconservice import VarDB', 'from iconservice import IconScoreBase as B, VarDB', 'from iconservice import os']


@unit('C19', CODE + CONST + FILES, cost=60, bounded='27 forbidden and 11 allowed statements in 11 contexts, 8 file places')
def validator_sources(h):
    """real sources, compiled by the interpreter"""
    ctx = h.choose('context', list(WRAP))
    sort = h.choose('sort', ['good', 'bad'])
    good = list(GOOD)
    if ctx in ('module', 'last'):
        good += STARS
    st = h.choose('statement', good if sort == 'good' else BAD)
    files = {'main.py': 'import iconservice\n', 'a.py': 'b = 1\n', 'sub/__init__.py': '', 'sub/mod.py': 'b = 1\n'}
    files[h.choose('file', PLACES if sort == 'bad' else PLACES[:1])] = WRAP[ctx].format(st)
    o = in_scratch(files, V.execute)
    h.check('accepted exactly when allowed', (o[0] == 'ok') == (sort == 'good'))


@unit('C19', CODE + CONST + FILES, cost=5, bounded='histories of five packages')
def validator_history(h):
    """the verdict on a package does not depend on those before"""
    x = h.choose('history', list(range(24)))
    if not h.symbolic:
        x = x + 24 * h.int('more', 0, 10 ** 6)
    x = x * 2654435761 % 2 ** 32 + 1

    def pick(seq):
        nonlocal x
        x = (x * 1103515245 + 12345) % 2 ** 31
        return seq[x // 65536 % len(seq)]
    for step in range(5):
        good = pick([True, False])
        st = pick(GOOD if good else BAD)
        files = {'main.py': 'import iconservice\n', 'a.py': 'b = 1\n', 'sub/__init__.py': '', 'sub/mod.py': 'b = 1\n',
                 'mod.py': 'from .a import b\n'}
        files[pick(['main.py', 'a.py', 'sub/mod.py', 'mod.py', 'sub/a.py'])] = WRAP[pick(list(WRAP))].format(st)
        o = in_scratch(files, V.execute)
        h.check('accepted exactly when allowed', (o[0] == 'ok') == good)


@unit('C19', CODE + CONST + FILES, cost=20, bounded='constant tables of 250 to 300 entries')
def validator_wide(h):
    """imports after many constants and names"""
    n = h.choose('constants', [252, 253, 254, 255, 256, 257, 258, 300])
    names = h.choose('names', [0, 255, 256, 300])
    first = h.choose('first', ['', 'from . import a\n'])
    st = h.choose('statement', ['import os', 'from os import path', 'from os import *', 'eval("1")'])
    src = first + ''.join(f'x = {i + 1000}\n' for i in range(n)) + ''.join(f'n{i} = x\n' for i in range(names)) + st + '\n'
    o = in_scratch({'main.py': src, 'a.py': ''}, V.execute)
    h.check('refused', o[0] == 'raise')


@unit('C19', FILES + SV + '_is_bytecode_cache')
def validator_files(h):
    """files that can be imported but not inspected are refused, others are
    ignored"""
    kind, good = h.choose('file', [
        ('evil.pyc', False), ('sub/evil.pyc', False), ('__pycache__/evil.pyc', False), ('evil.so', False),
        ('sub/deep/evil.so', False), ('evil.abi3.so', False), ('__pycache__/evil.abi3.so', False),
        ('__pycache__/main.cpython-312.pyc', True), ('sub/__pycache__/mod.cpython-37.pyc', True),
        ('readme.txt', True), ('package.json', True), ('data.bin', True), ('sub/notes.pyx', True), ('py', True)])
    o = in_scratch({'main.py': 'import iconservice\n', 'sub/mod.py': '', kind: 'import os\n'}, V.execute)
    h.check('accepted exactly when allowed', (o[0] == 'ok') == good)
    o = in_scratch({'main.py': 'import iconservice\n', 'sub/mod.py': 'import iconservice\n'}, twice)
    h.check('accepted twice', o[0] == 'ok')


def twice(d):
    """a package accepted once is accepted when the node loads it again"""
    V.execute(d)
    outcome(REAL_LOAD, d)
    V.execute(d)


MARK = 'import iconservice\niconservice.pv_mark.append(__name__)\n'
MAIN = """import iconservice
iconservice.pv_mark.append(__name__)


class Main(iconservice.IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        iconservice.pv_mark.append('Main')

    def on_install(self):
        pass

    def on_update(self):
        pass

    @iconservice.external
    def run(self):
        return 7
"""
DESC = '{"version": "1", "main_module": "main", "main_score": "Main"}'


@unit('C19', FILES + 'pyexec.service_engine:ServiceEngine.get_score_api', cost=10,
      bounded='packages with one offending file among five places')
def validator_before(h):
    """nothing of a package is executed before all of it is accepted"""
    import iconservice
    w = World(h)
    w.engine = px.PyExecEngine(w.proxy, True)
    IconScoreLoader.load_module = staticmethod(REAL_LOAD)
    bad = h.choose('bad', [None] + PLACES[1:6])
    deco = h.choose('executing', [[], ['__init__.py'], ['sub/__init__.py'], ['__init__.py', 'sub/__init__.py', 'a.py']])
    files = {'package.json': DESC, 'main.py': MAIN, 'sub/mod.py': ''}
    for n in deco:
        files[n] = MARK
    if bad is not None:
        files[bad] = files.get(bad, '') + h.choose('how', ['import os\n', 'def f():\n    import sys\n', 'eval("1")\n'])
    mark = []
    iconservice.pv_mark = mark

    def go(d):
        w.deliver((Message.GETAPI, spec.UTF8(d)))
    in_scratch(files, go)
    del iconservice.pv_mark
    sent = w.node.sent(Message.GETAPI)
    h.check('one reply', len(sent) == 1)
    if len(sent) != 1:
        return
    if bad is None:
        h.check('published', And(sent[0][0] == 0, len(sent[0][1]) == 3, 'Main' in mark))
    else:
        h.check('refused', And(sent[0][0] != 0, sent[0][1] is None))
        h.check('nothing was executed', mark == [])
