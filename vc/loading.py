"""C21: which code runs, and bound to what."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, stand_in, Prog, Score, Message, Address, EOA, CON, OTHER, USER, SELF, outcome, sym_address, addr_bytes,
                    IconScoreBase, external, programs, nested, CODE)
from vc.outcome import one_result
from vc.declare import interface_of
from pyexec.base import exception as X
from pyexec.base.address import GETAPI_DUMMY_ADDRESS
from pyexec.iconscore import icon_score_loader as loader
from pyexec.iconscore.icon_score_loader import IconScoreLoader
from pyexec.iconscore.icon_container_db import VarDB, ArrayDB, DictDB

MP = ('pyexec.iconscore.icon_score_mapper:IconScoreMapper.get_icon_score '
      'pyexec.iconscore.icon_score_mapper:IconScoreMapper.put_score_info '
      'pyexec.iconscore.icon_score_mapper:IconScoreMapper.get '
      'pyexec.iconscore.icon_score_mapper:IconScoreMapper.__setitem__ '
      'pyexec.iconscore.icon_score_mapper:IconScoreMapper._create_icon_score_database '
      'pyexec.service_engine:ServiceEngine._get_icon_score pyexec.service_engine:ServiceEngine._internal_call '
      'pyexec.database.factory:ContextDatabaseFactory.create_by_address ')


def new_class(tag):
    class Loaded(Score):
        code_tag = tag

        def __init__(self, db):
            super().__init__(db)
            self.count = 0
    return Loaded


@unit('C21', MP)
def load_sequence(h):
    """any sequence of three invocations"""
    w = World(h)
    paths = [h.str('path0', lo=1), h.str('path1', lo=1), h.str('path2', lo=1)] if h.symbolic else \
        [h.choose(f'path{i}', ['/a/x', '/a/X', '/b/y', '/a/x2', '/a/0x', '/a/' + 'x' * 64, '/a/' + 'x' * 65])
         for i in range(3)]
    tos = [Address(CON, h.bytes(f'to{i}', n=20)) for i in range(3)]
    missing = h.choose('missing', [None, 0, 1])
    loads, ran = [], []

    def load(path):
        loads.append(path)
        if missing is not None and path == paths[missing]:
            return None
        return new_class(path)
    IconScoreLoader.load_module = staticmethod(load)

    def run(s):
        s.count += 1
        ran.append((s, type(s).code_tag, s.address, s.db.address, s.count))
        return s.count
    Prog.run = run
    k = 0
    for i in range(3):
        n, l = len(ran), len(loads)
        r = w.invoke('run', code=paths[i], to=tos[i], costs={})
        if not one_result(h, w, r):
            return
        gone = missing is not None and paths[i] == paths[missing]
        if gone:
            h.check('a missing package is reported', And(r[0] == 2, len(ran) == n))
            continue
        h.check('runs', And(r[0] == 0, len(ran) == n + 1))
        if len(ran) != n + 1:
            return
        s, tag, addr, dbaddr, count = ran[-1]
        h.check('the code of the package named', tag == paths[i])
        h.check('bound to the target address', And(addr == tos[i], dbaddr == tos[i]))
        h.check('a fresh object', And(count == 1, len([1 for x in ran if x[0] is s]) == 1))
        known = False
        for j in range(i):
            if paths[j] == paths[i]:
                known = True
        h.check('loaded once', len(loads) == (l if known else l + 1))
        if not known:
            h.check('its own package is loaded', loads[-1] == paths[i])


@unit('C21', MP)
def load_failing(h):
    """a package that fails to load fails the invocation, and does not spoil
    the next"""
    w = World(h)
    first = h.choose('first', ['invoked', 'interface'])
    err = h.choose('error', [None, KeyError('main_score'), X.IllegalFormatException('x'), ImportError(), SyntaxError('x'),
                             SystemExit(), AttributeError()])
    n = []

    def load(path):
        n.append(path)
        if len(n) == 1:
            if err is None:
                return None
            raise err
        return new_class(path)
    IconScoreLoader.load_module = staticmethod(load)
    Prog.run = lambda s: 7
    if first == 'interface':
        api = interface_of(w)
        h.check('no interface', And(api is not None, api[0] != 0))
    else:
        r = w.invoke('run', costs={})
        if one_result(h, w, r):
            h.check('fails', r[0] == (2 if err is None else 5 if isinstance(err, X.IllegalFormatException) else 1))
    r = w.invoke('run', costs={})
    if one_result(h, w, r):
        h.check('loaded again', And(r[0] == 0, r[2] == 7, len(n) == 2))


@unit('C21', MP)
def load_absent(h):
    """a missing package is reported as such, whatever is asked of it"""
    w = World(h)
    method = h.choose('method', ['run', 'peek', 'pay', 'fallback', 'on_install', 'on_update', 'hidden', '', '__init__',
                                 lambda: h.str('name')])
    params = h.choose('params', [[], [1], [None, 'x'], {}, {'a': '0x1'}])
    done = []
    Prog.run = lambda s: done.append(1)
    IconScoreLoader.load_module = staticmethod(lambda path: None)
    for i in range(h.choose('times', [1, 2])):
        r = w.invoke(method() if callable(method) else method, params=params, value=h.int('value', 0), costs={},
                     query=h.choose('query', [False, True]), to=Address(CON, h.bytes('to', n=20)), limit=h.int('limit', 0))
        if one_result(h, w, r):
            h.check('contract not found', And(r[0] == 2, len(done) == 0))


@unit('C21', MP)
def load_nested(h):
    """a callee that is the same package gets an object of its own, bound to
    its own address"""
    w = World(h)
    same = h.choose('same package', [False, True])
    to = Address(CON, h.bytes('to', n=20))
    w.classes['/other'] = new_class('/other')
    w.classes[CODE] = new_class(CODE)
    seen = []

    def first(s):
        s.count += 1
        outcome(s.call, to, 'run', {})
        seen.append((type(s).code_tag, s.count, s.address, s.db.address))

    def second(s):
        seen.append((type(s).code_tag, s.count, s.address, s.db.address))
        s.count = 9
    programs(first, second)
    nested(w, w.message('run', to=to, code=CODE if same else '/other', costs={}))
    r = w.invoke('run', costs={})
    h.check('both ran', len(seen) == 2)
    if len(seen) == 2:
        h.check('callee', And(seen[0][0] == (CODE if same else '/other'), seen[0][1] == 0, seen[0][2] == to,
                              seen[0][3] == to))
        h.check('caller', And(seen[1][0] == CODE, seen[1][1] == 1, seen[1][2] == SELF, seen[1][3] == SELF))
    h.check('loaded once per package', len(w.loads) == (1 if same else 2))


OPS = ['get', 'set', 'remove', 'array', 'array put', 'contains', 'dict get', 'dict has', 'dict del']


def touch(db, op):
    if op == 'get':
        return VarDB('x', db, int).get()
    if op == 'set':
        return VarDB('x', db, int).set(1)
    if op == 'remove':
        return VarDB('x', db, int).remove()
    if op == 'array':
        return len(ArrayDB('x', db, int))
    if op == 'array put':
        return ArrayDB('x', db, int).put(1)
    if op == 'contains':
        return 1 in ArrayDB('x', db, int)
    if op == 'dict get':
        return DictDB('x', db, int)['k']
    if op == 'dict has':
        return 'k' in DictDB('x', db, int)
    DictDB('x', db, int).remove('k')


@unit('C21 C17', MP + 'pyexec.service_engine:ServiceEngine.get_score_api '
                      'pyexec.ipc.proxy:ServiceManagerProxy.__handle_get_api pyexec.pyexec:PyExecEngine.api_handler')
def load_interface_store(h):
    """loading an interface: the store refuses every access"""
    w = World(h)
    op = h.choose('op', OPS)
    caught = h.choose('caught', [False, True])
    box = []

    def init(s):
        o = outcome(touch, s.db, op)
        box.append(o)
        if o[0] == 'raise' and not caught:
            raise o[1]
    Prog.init = init
    w.deliver((Message.GETAPI, spec.UTF8(CODE)))
    h.check('refused', And(len(box) == 1, box[0][0] == 'raise'))
    st = [k for k in w.node.kinds() if k != Message.GETAPI]
    h.check('nothing is asked of the node', st == [])
    api = w.node.sent(Message.GETAPI)
    h.check('answered once', len(api) == 1)
    if len(api) == 1:
        h.check('failure unless caught', (api[0][0] == 0) == caught)
    # a following invocation of the same code has a working store
    Prog.init = None
    Prog.run = lambda s: VarDB('y', s.db, int).set(3)
    r = w.invoke('run', costs={})
    if one_result(h, w, r):
        h.check('works', And(r[0] == 0, len(w.node.sent(Message.SETVALUE)) == 1))
    h.check('loaded once', len(w.loads) == 1)


class FakeModule:
    pass


@unit('C21', 'pyexec.iconscore.icon_score_loader:IconScoreLoader.load_module '
             'pyexec.iconscore.icon_score_loader:IconScoreLoader._get_package_info '
             'pyexec.iconscore.icon_score_loader:IconScoreLoader._load_package_json')
def load_package(h):
    """the main class named by the description of the package itself"""
    World(h)
    path = h.choose('path', ['/data/contracts/0xabc', '/data/contracts/0xdef', '/other/0x1'])
    exists = h.choose('exists', [True, False])
    how = h.choose('main', ['main_module', 'main_file', 'both', 'odd', 'neither'])
    name, name2 = h.str('name'), h.str('name2')
    desc = {'main_score': 'Main', 'version': '1'}
    if how in ('main_module', 'both'):
        desc['main_module'] = name
    if how == 'odd':
        desc['main_module'] = 3
    if how in ('main_file', 'both', 'odd'):
        desc['main_file'] = name2
    if h.choose('no main class', [False, True]):
        del desc['main_score']
    opened, imported, invalidated = [], [], []
    mod = FakeModule()
    mod.Main = new_class('main')
    mod.Other = None

    def exists_(p):
        return exists if p == path else False
    Path = stand_in(h, 'os.path', join=lambda *a: '/'.join(a), dirname=lambda p: p[:p.rindex('/')],
                    basename=lambda p: p[p.rindex('/') + 1:], exists=exists_, isdir=exists_,
                    isfile=lambda p: exists_(p[:p.rindex('/')]) and p.endswith('/package.json'))
    Os = stand_in(h, 'os', path=Path)

    class File:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def read(self):
            return self

        def close(self):
            pass

    def open_(p, *a, **k):
        opened.append(p)
        return File()

    def import_(n, package=None):
        imported.append((n, package))
        return mod
    Json = stand_in(h, 'json', load=lambda f: desc, loads=lambda f: desc)
    Importlib = stand_in(h, 'importlib', invalidate_caches=lambda: None, import_module=import_)
    Sys = stand_in(h, 'sys', path=['/usr/lib'], modules={})
    saved = {k: loader.__dict__.get(k) for k in ('os', 'json', 'importlib', 'sys')}
    loader.os, loader.json, loader.importlib, loader.sys = Os, Json, Importlib, Sys
    loader.open = open_
    try:
        o = outcome(REAL_LOAD, path)
    finally:
        for k, v in saved.items():
            setattr(loader, k, v)
        del loader.open
    if not exists:
        h.check('nothing there', And(o[0] == 'ok', o[1] is None, len(imported) == 0))
        return
    h.check('its own description', opened == [path + '/package.json'])
    want = {'main_module': name, 'both': name, 'main_file': name2, 'odd': name2, 'neither': None}[how]
    if want is None or 'main_score' not in desc:
        h.check('incomplete description', And(o[0] == 'raise', len(imported) == 0))
        return
    if want.startswith('.'):
        h.check('relative names are refused', And(o[0] == 'raise', isinstance(o[1], X.IllegalFormatException),
                                                  len(imported) == 0))
        return
    h.check('loaded', o[0] == 'ok')
    if o[0] == 'ok':
        h.check('the main class', o[1] is mod.Main)
        h.check('of the main module of this package',
                len(imported) == 1 and absolute(*imported[0]) == path[path.rindex('/') + 1:] + '.' + want)
        h.check('found in the directory of the package', Sys.path == ['/usr/lib', path[:path.rindex('/')]])


def absolute(name, package):
    """the module importlib.import_module(name, package) stands for"""
    return package + name if name.startswith('.') and package is not None else name


REAL_LOAD = IconScoreLoader.load_module


SOURCE = """class {main}:
    tag = {tag!r}
    def __init__(self, db):
        self.db = db


class Second({main}):
    tag = {tag!r} + '/second'
"""


@unit('C21', 'pyexec.iconscore.icon_score_loader:IconScoreLoader.load_module '
             'pyexec.iconscore.icon_score_loader:IconScoreLoader._get_package_info '
             'pyexec.iconscore.icon_score_loader:IconScoreLoader._load_package_json', cost=20,
      bounded='two packages in real scratch directories, eight layouts each')
def load_files(h):
    """packages in real directories, every pair of layouts"""
    import json
    import os
    import shutil
    import sys
    import tempfile
    World(h)
    layouts = ['module', 'file', 'nested', 'second', 'both', 'missing', 'relative', 'no module']
    top = tempfile.mkdtemp(prefix='pvload')
    path, mods = list(sys.path), set(sys.modules)
    try:
        for n in (0, 1):
            lay = h.choose(f'layout{n}', layouts)
            base = os.path.basename(top) + f'x{n}'
            d = f'{top}/{n}/{base}' if h.choose('parents', [0, 1]) else f'{top}/{base}'
            desc = {'main_score': 'Main', 'version': '1'}
            name = 'pkg.main' if lay == 'nested' else 'main'
            if lay == 'missing':
                h.check('nothing there', outcome(REAL_LOAD, d)[1] is None)
                continue
            os.makedirs(d + '/pkg')
            for m in ('main', 'other', 'pkg/main'):
                with open(f'{d}/{m}.py', 'w') as f:
                    f.write(SOURCE.format(main='Main', tag=f'{n}/{m}'))
            if lay in ('file', 'both'):
                desc['main_file'] = 'other' if lay == 'both' else name
            if lay not in ('file', 'no module'):
                desc['main_module'] = '.main' if lay == 'relative' else name
            if lay == 'second':
                desc['main_score'] = 'Second'
            with open(d + '/package.json', 'w') as f:
                json.dump(desc, f)
            o = outcome(REAL_LOAD, d)
            if lay in ('relative', 'no module'):
                h.check('refused', o[0] == 'raise')
                continue
            h.check('loaded', o[0] == 'ok')
            if o[0] == 'ok':
                want = f'{n}/pkg/main' if lay == 'nested' else f'{n}/main' + ('/second' if lay == 'second' else '')
                h.check('the main class of the package', o[1].tag == want)
    finally:
        sys.path[:] = path
        for m in set(sys.modules) - mods:
            if m.startswith(os.path.basename(top)):
                del sys.modules[m]
        shutil.rmtree(top)
