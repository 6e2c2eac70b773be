"""C11: entry points of a contract."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, Prog, Score, Message, Address, EOA, CON, OTHER, USER, SELF, outcome, eventlog, external,
                    payable, isolated, IconScoreBase, wire)
from vc.outcome import one_result, sym_result
from pyexec.base import exception as X

DI = ('pyexec.iconscore.icon_score_base:IconScoreBase.__call '
      'pyexec.iconscore.icon_score_base:IconScoreBase.__validate_external_method '
      'pyexec.iconscore.icon_score_base:IconScoreBase.__check_payable '
      'pyexec.iconscore.icon_score_base:IconScoreBase.__is_external_method '
      'pyexec.iconscore.icon_score_base:IconScoreBase.__is_payable_method '
      'pyexec.iconscore.icon_score_base:external pyexec.iconscore.icon_score_base:payable '
      'pyexec.service_engine:ServiceEngine._internal_call '
      'pyexec.iconscore.typing.element:FunctionMetadata.is_external '
      'pyexec.iconscore.typing.element:FunctionMetadata.is_payable '
      'pyexec.iconscore.typing.element:create_score_element_metadata')
RUN = []


def ran(name, *a, **k):
    RUN.append((name, a, k))
    return Prog.run(name)


class Base(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        return ran('on_install')

    def on_update(self):
        return ran('on_update')

    @external
    def ext(self, a: int):
        return ran('ext', a)

    @external(readonly=True)
    def view(self, a: int):
        return ran('view', a)

    @payable
    @external
    def pay(self, a: int):
        return ran('pay', a)

    @external
    @payable
    def pay2(self, a: int, b: str = 'd'):
        return ran('pay2', a, b)

    @payable
    def onlypay(self, a: int):
        return ran('onlypay', a)

    def hidden(self, a: int):
        return ran('hidden', a)

    def _private(self, a: int):
        return ran('_private', a)

    @external
    def _view(self, a: int):
        return ran('_view', a)

    @external(readonly=True)
    def ext_(self, a: int):
        return ran('ext_', a)

    @external
    def narrowed(self, a: int):
        return ran('narrowed', a)

    @eventlog
    def Event(self, a: int):
        pass

    @staticmethod
    def static(a):
        return ran('static', a)

    @classmethod
    def klass(cls, a):
        return ran('klass', a)


class Closed(Base):
    """an inherited method overridden without the decorator; no payable
    fallback"""

    def narrowed(self, a: int):
        return ran('narrowed', a)

    def fallback(self):
        return ran('fallback')

    @external
    def hidden2(self, a: int):
        return ran('hidden2', a)


class Open(Base):
    @payable
    def fallback(self):
        return ran('fallback')

    @payable
    def on_dummy(self):
        return ran('on_dummy')


EXT = {Closed: ['ext', 'view', 'pay', 'pay2', '_view', 'ext_', 'hidden2'],
       Open: ['ext', 'view', 'pay', 'pay2', '_view', 'ext_', 'narrowed']}
PAY = ['pay', 'pay2', 'fallback']
NAMES = ['ext', 'view', 'pay', 'pay2', 'onlypay', 'hidden', '_private', 'narrowed', 'Event', 'static', 'klass',
         'fallback', 'on_install', 'on_update', 'hidden2', 'on_dummy', '', '__init__', 'call', 'revert', 'db',
         'set_fee_sharing_proportion', '_IconScoreBase__call', 'ext ', 'Ext', 'fallback2', 'on_installed', '__class__',
         '_view', 'ext_', '_ext', 'view_', '_fallback', 'fallback_', '_hidden', '__view', 'Narrowed']


def reference(cls, name, value):
    """'run', 'unknown' or 'coins'"""
    if name == 'fallback':
        return 'run' if cls is Open else 'unknown'
    if name in ('on_install', 'on_update'):
        return 'run' if value == 0 else 'coins'
    if name in EXT[cls]:
        return 'run' if value == 0 or name in PAY else 'coins'
    return 'unknown'


def arguments(name):
    return {'pay2': 2, 'fallback': 0, 'on_install': 0, 'on_update': 0}.get(name, 1)


def check(h, w, r, ref, name, args, ret):
    if not one_result(h, w, r):
        return
    n = len(RUN)
    if ref == 'run':
        h.check('ran once', n == 1)
        if n != 1:
            return
        h.check('the method named', RUN[0][0] == name)
        h.check('the arguments given', spec.same(list(RUN[0][1]), args))
        h.check('its value is the result', And(r[0] == 0, spec.same(r[2], ret)))
    else:
        h.check('no method runs', n == 0)
        h.check('refused', r[0] == (3 if ref == 'unknown' else 4))


@unit('C11', DI)
def dispatch_named(h):
    cls = h.choose('class', [Closed, Open])
    name = h.choose('method', NAMES)
    value = h.int('value', 0)
    w = World(h, cls)
    del RUN[:]
    ret = h.int('ret')
    Prog.run = lambda n: ret
    args = [h.int('a'), h.str('b')][:arguments(name)]
    query = h.choose('query', [False, True])
    # the caller may be a contract, this contract among them
    frm = h.choose('from', [None, lambda: Address(CON, h.bytes('from', n=20)), lambda: Address(EOA, h.bytes('from', n=20))])
    to = Address(CON, h.bytes('to', n=20))
    r = w.invoke(name, params=args, value=value, query=query, costs={}, limit=h.int('limit', 0), to=to,
                 frm=frm() if frm else None)
    check(h, w, r, reference(cls, name, value), name, args, ret)


@unit('C11', DI)
def dispatch_any_name(h):
    """every other text is refused"""
    cls = h.choose('class', [Closed, Open])
    name = h.str('method')
    value = h.int('value', 0)
    w = World(h, cls)
    del RUN[:]
    Prog.run = lambda n: 5
    r = w.invoke(name, params=[7], value=value, costs={})
    if not one_result(h, w, r):
        return
    if len(RUN) == 0:
        if name in EXT[cls] or name in ('on_install', 'on_update') or (name == 'fallback' and cls is Open):
            # wrong number of arguments or coins
            h.check('refused for its coins or its arguments', Or(r[0] == 4, And(r[0] == 1, name in (
                'on_install', 'on_update'))))
        else:
            h.check('unknown method', r[0] == 3)
    else:
        h.check('ran once', len(RUN) == 1)
        h.check('the method named', name == RUN[0][0])
        h.check('published', Or(name in EXT[cls], And(name == 'fallback', cls is Open)))


@unit('C11', DI)
def dispatch_arguments(h):
    """arguments of every kind arrive unchanged; a wrong number of them means
    that the method does not run"""
    w = World(h, Open)
    del RUN[:]
    n = h.choose('number', [0, 1, 2, 3])
    args = [sym_result(h) if i == 0 else h.int('x') for i in range(n)]
    ret = sym_result(h) if n == 1 else 3
    Prog.run = lambda n: ret
    r = w.invoke("pay2", params=args, value=h.int('value', 0), costs={})
    if n in (1, 2):
        check(h, w, r, 'run', 'pay2', args if n == 2 else args + ['d'], ret)
    elif one_result(h, w, r):
        h.check('does not run', And(len(RUN) == 0, Not(r[0] == 0)))


@unit('C11', DI)
def dispatch_failing(h):
    """coins are refused before the method; an error of the method is its
    outcome; the object is fresh for the next call"""
    w = World(h, Open)
    del RUN[:]
    value = h.int('value', 0)

    def fail(n):
        raise X.InvalidParamsException('m')
    Prog.run = fail
    name = h.choose('method', ['ext', 'pay', 'view', 'narrowed'])
    a = h.int('a')
    r = w.invoke(name, params=[a], value=value, costs={})
    if one_result(h, w, r):
        if value == 0 or name == 'pay':
            h.check('ran once', And(len(RUN) == 1, RUN[0][0] == name))
            h.check('outcome', r[0] == 6)
        else:
            h.check('refused first', And(len(RUN) == 0, r[0] == 4))


@unit('C11', DI)
def dispatch_named_params(h):
    """with named parameters"""
    cls = h.choose('class', [Closed, Open])
    name = h.choose('method', ['ext', 'view', 'pay', 'pay2', 'onlypay', 'hidden', '_private', 'narrowed', 'hidden2',
                               'nosuch', 'call', 'static'])
    value = h.int('value', 0)
    w = World(h, cls)
    del RUN[:]
    Prog.run = lambda n: 5
    r = w.invoke(name, params={'a': '0x7'}, value=value, costs={})
    if not one_result(h, w, r):
        return
    ref = reference(cls, name, value)
    if ref == 'run':
        h.check('ran once', And(len(RUN) == 1, RUN[0][0] == name, RUN[0][1][0] == 7, r[0] == 0, r[2] == 5))
    else:
        h.check('no method runs', And(len(RUN) == 0, Not(r[0] == 0)))
        if ref == 'coins':
            h.check('refused for its coins', r[0] == 4)


@unit('C11 C12', DI)
def dispatch_odd_params(h):
    """parameters that are neither a list nor a map"""
    w = World(h, Open)
    del RUN[:]
    Prog.run = lambda n: 5
    name = h.choose('method', ['ext', 'pay2', 'view', 'fallback', 'on_install', 'hidden', 'nosuch', ''])
    k = h.choose('params', ['none', 'str', 'int', 'bytes', 'bool', 'address'])
    p = {'none': lambda: None, 'str': lambda: h.str('p'), 'int': lambda: h.int('p'), 'bytes': lambda: h.bytes('p'),
         'bool': lambda: True, 'address': lambda: USER}[k]()
    r = w.invoke(name, params_wire=wire(p), value=h.int('value', 0), costs={}, query=h.choose('query', [False, True]))
    if one_result(h, w, r):
        h.check('no method runs', len(RUN) == 0)
        h.check('refused', Not(r[0] == 0))
    Prog.run = lambda n: 6
    r = w.invoke('pay2', params=[4, 'x'], costs={})
    h.check('next one runs', And(r is not None, len(RUN) == 1, r[0] == 0, r[2] == 6))


class Lively(Open):
    """attributes that run code when they are read"""

    @property
    def prop(self):
        ran('prop')
        return self.ext

    def __getattr__(self, name):
        ran('__getattr__')
        return self.ext

    @external
    def bare(self, a: int):
        return ran('bare', a)


@unit('C11', DI + ' pyexec.service_engine:ServiceEngine._convert_score_params_by_annotations')
def dispatch_attributes(h):
    """reading an attribute for another name runs no code either"""
    w = World(h, Lively)
    del RUN[:]
    Prog.run = lambda n: 5
    name = h.choose('method', ['prop', 'nosuch', '', 'ext', 'bare', '__getattr__'])
    named = h.choose('named', [True, False])
    r = w.invoke(name, params={'a': '7'} if named else [7], costs={}, query=h.choose('query', [False, True]))
    if not one_result(h, w, r):
        return
    if name in ('ext', 'bare'):
        h.check('ran once', And(len(RUN) == 1, RUN[0][0] == name, RUN[0][1][0] == 7, r[0] == 0, r[2] == 5))
    else:
        h.check('no code runs', len(RUN) == 0)
        h.check('refused', And(Not(r[0] == 0), Or(named, r[0] == 3)))


class Hooked(IconScoreBase):
    """hooks that call those of the base first"""

    def __init__(self, db):
        super().__init__(db)

    @external
    def run(self):
        return Prog.run(self)

    def on_install(self) -> None:
        super().on_install()
        return Prog.run(self)

    def on_update(self) -> None:
        super().on_update()
        return Prog.run(self)


@unit('C11', DI + ' pyexec.iconscore.icon_score_base:IconScoreBase.on_install '
                  'pyexec.iconscore.icon_score_base:IconScoreBase.on_update')
def dispatch_hooks(h):
    w = World(h, type('Derived', (Hooked,), {}) if h.choose('inherited', [False, True]) else Hooked)
    seen = []
    Prog.run = lambda s: seen.append(s.address)
    for name in h.choose('hooks', [('on_install',), ('on_update',), ('on_install', 'on_update'),
                                   ('on_update', 'on_install', 'on_update')]):
        value = h.choose('value', [0, 1])
        n = len(seen)
        r = w.invoke(name, value=value, costs={})
        if not one_result(h, w, r):
            return
        if value == 0:
            h.check('runs once', And(len(seen) == n + 1, r[0] == 0, r[2] is None))
        else:
            h.check('coins are refused', And(len(seen) == n, r[0] == 4))


@unit('C11', 'pyexec.iconscore.icon_score_base:external pyexec.iconscore.icon_score_base:payable '
             'pyexec.iconscore.icon_score_base:isolated')
def dispatch_foreign(h):
    """a published method does not run on another object"""
    w = World(h, Open)
    del RUN[:]
    Prog.run = lambda n: 5
    f = h.choose('method', [Open.ext, Open.pay, Open.view, Open.fallback, Open.pay2])
    o = outcome(f, object(), 1) if f is not Open.fallback else outcome(f, object())
    h.check('refused', And(o[0] == 'raise', isinstance(o[1], X.InvalidInstanceException), len(RUN) == 0))
