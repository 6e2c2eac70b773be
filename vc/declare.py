"""C18: ill-formed contract declarations are refused, well-formed ones are
accepted.  The contract classes are sources executed by the loader; defaults
and indexed counts are arbitrary values where that makes sense."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import World, Message, Address, EOA, CON, CODE, outcome, IconScoreLoader

EL = 'pyexec.iconscore.typing.element:'
BASE = 'pyexec.iconscore.icon_score_base:'
DEFINE = (EL + 'create_score_element_metadata ' + EL + 'verify_score_flag ' + EL + 'normalize_signature '
          + EL + 'normalize_parameter ' + EL + 'check_parameter_default_type ' + EL + 'normalize_type_hint '
          + EL + 'FunctionMetadata._verify_fallback_signature ' + EL + 'ScoreElementMetadataContainer.__setitem__ '
          + BASE + 'IconScoreBaseMeta.__new__ ' + BASE + 'IconScoreBase.__init__ ')
DECO = BASE + 'external ' + BASE + 'payable ' + BASE + 'eventlog ' + BASE + 'interface '
TYPES = (EL + 'normalize_list_type_hint ' + EL + 'normalize_dict_type_hint ' + EL + 'normalize_union_type_hint '
         + EL + 'check_if_struct_is_valid ' + EL + 'is_struct_valid pyexec.iconscore.typing:get_origin '
         'pyexec.iconscore.typing:get_args pyexec.iconscore.typing:is_base_type pyexec.iconscore.typing:is_struct '
         'pyexec.iconscore.typing:name_to_type pyexec.iconscore.typing:isinstance_ex ')
EV = BASE + '__retrieve_event_signature '

HEAD = """from iconservice import *
from typing import Any, Dict, Tuple, Set, Mapping
"""
CLASS = """
class Main(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
"""
HOOKS = """
    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()
"""
RUN = """
    @external
    def run(self) -> int:
        return 7
"""


def source(body, prelude='', hooks=HOOKS, run=RUN):
    return HEAD + prelude + CLASS + hooks + run + body


def deploy(w, src, env=None):
    """the loader gets Main of a module with this source"""
    def load(path):
        w.loads.append(path)
        ns = {'__name__': 'score_module'}
        if env is not None:
            ns.update(env)
        spec.run_source(src, ns)
        return ns['Main']
    IconScoreLoader.load_module = staticmethod(load)


def interface_of(w):
    n = len(w.node.sent(Message.GETAPI))
    w.deliver((Message.GETAPI, spec.UTF8(CODE)))
    sent = w.node.sent(Message.GETAPI)
    return sent[-1] if len(sent) == n + 1 else None


def judge(h, src, good, env=None, run=True):
    """good: True, False or None (not specified)"""
    w = World(h)
    deploy(w, src, env)
    api = interface_of(w)
    h.check('one reply', api is not None)
    if api is None or good is None:
        return
    h.check('accepted when well-formed', Implies(good, api[0] == 0))
    h.check('refused when ill-formed', Implies(Not(good), api[0] != 0))
    h.check('no interface of a refused class', Implies(Not(good), api[1] is None))
    if run:
        r = w.invoke('run', costs={})
        h.check('answered', r is not None)
        if r is not None:
            h.check('runs when well-formed', Implies(good, And(r[0] == 0, r[2] == 7)))
            h.check('does not run when ill-formed', Implies(Not(good), r[0] != 0))


def place(h, deco, rest):
    """the declaration under test, before or after the others in the class"""
    return '\n' + ''.join(f'    {d}\n' for d in deco) + '    ' + rest + '\n        return None\n'


DECOS = {'@external': 'E', '@external()': 'E', '@external(readonly=False)': 'E', '@external(readonly=True)': 'R',
         '@payable': 'P', '@eventlog': 'V', '@eventlog(indexed=1)': 'V', '@interface': 'I'}


def combination(decos, fallback=False):
    """is a method with these decorators well-formed?"""
    kinds = [DECOS[d] for d in decos]
    marks = ['E' if k == 'R' else k for k in kinds]
    if len(set(marks)) != len(marks):
        return False
    s = ''.join(sorted(kinds))
    if fallback:
        if 'E' in marks:
            return False
        return {'': True, 'P': True, 'V': None, 'I': None}.get(s, False)
    return {'': True, 'E': True, 'R': True, 'EP': True, 'P': True, 'V': True, 'I': None}.get(s, False)


def stack(h, most, choices):
    decos = []
    for i in range(most):
        d = h.choose(f'deco{i}', [None] + choices)
        if d is None:
            break
        decos.append(d)
    return decos


SHORT = ['@external', '@external(readonly=True)', '@payable', '@eventlog', '@interface']


@unit('C18', DEFINE + DECO, cost=60)
def declare_decorators(h):
    """any stack of up to four decorators on a method (five and more repeat
    one of them or contain a refused pair)"""
    decos = stack(h, 4, SHORT)
    name = 'a' if len(decos) > 3 else h.choose('name', ['a', 'z'])
    judge(h, source(place(h, decos, f'def {name}(self, x: int):')), combination(decos), run=len(decos) < 3)


@unit('C18', DEFINE + DECO)
def declare_spellings(h):
    """every spelling of the decorators"""
    decos = stack(h, 2, list(DECOS))
    judge(h, source(place(h, decos, 'def m(self, x: int):')), combination(decos))


@unit('C18', DEFINE + DECO)
def declare_fallback(h):
    """any stack of up to three decorators on the fallback"""
    decos = stack(h, 3, SHORT)
    judge(h, source(place(h, decos, 'def fallback(self):')), combination(decos, True), run=len(decos) < 2)


@unit('C18', DEFINE + DECO)
def declare_fallback_form(h):
    """parameters and results of the fallback"""
    deco = h.choose('deco', [None, '@payable'])
    params = h.choose('params', ['', ', x: int', ', x: int = 0', ', x', ', x=None', ', *args', ', **kw'])
    result = h.choose('result', ['', ' -> None', ' -> int', ' -> bool', ' -> str', ' -> List[int]', ' -> Optional[int]'])
    good = True if deco is None else params == '' and result in ('', ' -> None')
    judge(h, source(place(h, [deco] if deco else [], f'def fallback(self{params}){result}:')), good)


@unit('C18', DEFINE + DECO)
def declare_hooks(h):
    """decorators on the install and update hooks"""
    which = h.choose('hook', ['on_install', 'on_update'])
    decos = stack(h, 2, list(DECOS))
    hooks = ''
    for n in ('on_install', 'on_update'):
        params = h.choose(n + ' params', ['', ', x: int'])
        hooks += place(h, decos if n == which else [], f'def {n}(self{params}):')
    judge(h, source('', hooks=hooks), decos == [])


STRUCTS = """
class S(TypedDict):
    a: int
    b: str
    c: bytes
    d: bool
    e: Address

class Sub(S):
    f: int

class Nest(TypedDict):
    a: int
    s: S

class Deep(TypedDict):
    n: Nest

class Lists(TypedDict):
    a: List[int]
    b: List[List[str]]
    c: List[S]

class Opt(TypedDict):
    a: Optional[int]

class Full(TypedDict):
    %s

class Over(TypedDict):
    %s

class OverNest(TypedDict):
    a: int
    s: Over

class HasDict(TypedDict):
    a: dict

class HasDict2(TypedDict):
    a: int
    b: Dict[str, int]

class HasAny(TypedDict):
    b: Any

class HasFloat(TypedDict):
    b: str
    a: float

class HasTuple(TypedDict):
    a: tuple

class HasBadList(TypedDict):
    a: List[float]

class HasBareList(TypedDict):
    a: list

class HasUnion(TypedDict):
    a: Union[int, str]

class HasBadNest(TypedDict):
    a: int
    s: HasDict

class HasBadDeep(TypedDict):
    s: HasBadNest

class HasBadListNest(TypedDict):
    s: List[HasFloat]

class HasBadOpt(TypedDict):
    s: Optional[HasFloat]

class Twice(TypedDict):
    a: S
    b: S

class TwiceDeep(TypedDict):
    a: Twice
    b: Nest
    c: S

class Cycle(TypedDict):
    a: int

class CycleFar(TypedDict):
    c: Cycle

Cycle.__annotations__['b'] = CycleFar

class CycleList(TypedDict):
    a: int

CycleList.__annotations__['b'] = List[CycleList]

class Empty(TypedDict):
    pass

class Plain:
    a: int

class MyInt(int):
    pass
""" % ('\n    '.join(f'f{i}: int' for i in range(16)), '\n    '.join(f'f{i}: int' for i in range(17)))

GOOD = ['int', 'str', 'bytes', 'bool', 'Address', 'S', 'Sub', 'Nest', 'Deep', 'Lists', 'Opt', 'Full', 'Twice', 'TwiceDeep', 'Empty']
BAD = ['dict', 'Dict[str, int]', 'list', 'List', 'tuple', 'Tuple[int, int]', 'set', 'Set[int]', 'float', 'object', 'Any',
       'Union[int, str]', 'Union[int, str, None]', 'Mapping', 'Over', 'OverNest', 'HasDict', 'HasDict2', 'HasAny',
       'HasFloat', 'HasTuple', 'HasBadList', 'HasBareList', 'HasUnion', 'HasBadNest', 'HasBadDeep', 'HasBadListNest',
       'HasBadOpt', 'Cycle', 'CycleFar', 'CycleList', 'Plain', 'MyInt', 'IconScoreBase', 'type', 'bytearray', 'complex']
ODD = ['"int"', '"Foo"', '"address"', '""', '"List[int]"', '3', 'None', 'type(None)', 'True', '[int]', '(int,)', '...']
FORMS = ['{}', 'List[{}]', 'Optional[{}]', 'Union[{}, None]', 'List[List[{}]]', 'Optional[List[{}]]',
         'List[List[List[{}]]]', 'Optional[List[List[{}]]]']


@unit('C18', DEFINE + TYPES, cost=60,
      bounded='parameter types: 15 supported and 37 unsupported leaves under 8 list and optional forms, 12 malformed hints')
def declare_types(h):
    """the type of a parameter of a method or hook"""
    kind = h.choose('kind', ['external', 'readonly', 'payable', 'hook'])
    sort = h.choose('sort', ['good', 'bad', 'odd', 'none'])
    if sort == 'none':
        hint, good = h.choose('hint', ['', ': "Address"']), True
    elif sort == 'odd':
        hint, good = ': ' + h.choose('hint', ODD), False
    else:
        form = h.choose('form', FORMS if kind == 'external' else FORMS[:3])
        hint, good = ': ' + form.format(h.choose('leaf', GOOD if sort == 'good' else BAD)), sort == 'good'
    at = h.choose('position', [0, 1, 2]) if kind == 'external' and sort != 'good' else 0
    params = ['p: int', 'q: str']
    params.insert(at, 'x' + hint)
    params = ', '.join(params)
    hooks, body = HOOKS, ''
    if kind == 'hook':
        hooks = place(h, [], f'def on_install(self, {params}):') + place(h, [], 'def on_update(self):')
    else:
        decos = {'external': ['@external'], 'readonly': ['@external(readonly=True)'],
                 'payable': ['@payable', '@external']}[kind]
        body = place(h, decos, f'def m(self, {params}):')
    judge(h, source(body, STRUCTS, hooks), good, run=sort != 'good')


VALUE = ['int', 'str', 'bytes', 'bool', 'Address', 'none', 'float', 'list', 'dict', 'type']


def default_value(h, kind, name):
    return {'int': lambda: h.int(name), 'str': lambda: h.str(name), 'bytes': lambda: h.bytes(name),
            'bool': lambda: h.bool(name), 'Address': lambda: Address(CON, h.bytes(name, n=20)), 'none': lambda: None,
            'float': lambda: h.choose(name, [0.0, 1.5]), 'list': lambda: h.choose(name, [[], [1]]),
            'dict': lambda: h.choose(name, [{}, {'a': 1}]), 'type': lambda: int}[kind]()


@unit('C18', DEFINE + TYPES, cost=30)
def declare_defaults(h):
    """defaults of every type for parameters of every type, any values"""
    kind = h.choose('kind', ['external', 'payable', 'hook', 'eventlog'])
    typ = h.choose('type', ['int', 'str', 'bytes', 'bool', 'Address', ''] if kind != 'eventlog' else
                   ['int', 'str', 'bytes', 'bool', 'Address'])
    forms = ['{}'] if typ == '' or kind == 'eventlog' else ['{}', 'Optional[{}]']
    hint = h.choose('form', forms).format(typ)
    val = h.choose('default', VALUE)
    env = {'D': default_value(h, val, 'd')}
    good = val == 'none' or val == (typ or 'str')
    params = f'self, p: int, x{": " + hint if hint else ""} = D'
    hooks, body = HOOKS, ''
    if kind == 'hook':
        hooks = place(h, [], f'def on_install({params}):') + place(h, [], 'def on_update(self):')
    else:
        decos = {'external': ['@external'], 'payable': ['@payable', '@external'], 'eventlog': ['@eventlog']}[kind]
        body = place(h, decos, f'def m({params}):')
    judge(h, source(body, hooks=hooks), good, env)


@unit('C18', DEFINE + TYPES,
      bounded='lists and structures to a depth of two, defaults of at most one element')
def declare_container_defaults(h):
    """lists and structures have no default but None"""
    kind = h.choose('kind', ['external', 'hook'])
    leaf = h.choose('leaf', ['List[int]', 'List[S]', 'List[List[str]]', 'S', 'Nest', 'Empty'])
    hint = h.choose('form', ['{}', 'Optional[{}]', 'Union[{}, None]']).format(leaf)
    what = h.choose('default', ['none', 'list', 'tuple', 'struct', 'keys', 'int', 'str'])
    good = what == 'none'
    env = {'D': {'none': lambda: None, 'list': lambda: h.choose('d', [[], [1], [[]], [None], [{}]]),
                 'tuple': lambda: (), 'struct': lambda: {'a': 1, 'b': '', 'c': b'', 'd': True, 'e': None},
                 'keys': lambda: h.choose('d', [{}, {'a': 1}]), 'int': lambda: h.int('d'),
                 'str': lambda: h.str('d')}[what]()}
    params = f'self, p: int, x: {hint} = D'
    hooks, body = HOOKS, ''
    if kind == 'hook':
        hooks = place(h, [], f'def on_install({params}):') + place(h, [], 'def on_update(self):')
    else:
        body = place(h, ['@external'], f'def m({params}):')
    judge(h, source(body, STRUCTS, hooks=hooks), good, env)


@unit('C18', DEFINE)
def declare_variadic(h):
    """variadic, keyword-only and positional-only parameters"""
    kind = h.choose('kind', ['external', 'readonly', 'on_install', 'on_update', 'eventlog', 'none'])
    params, good = h.choose('params', [
        ('', True), ('x: int', True), ('x: int, y: str, z: bool', True), ('x: int, y: str = "a", z: bool = True', True),
        ('*args', False), ('**kw', False), ('*args: int', False), ('**kw: int', False), ('x: int, *args: int', False),
        ('x: int, **kw: int', False), ('*, x: int', False), ('x: int, *, y: int', False), ('x: int, *, y: int = 1', False),
        ('x: int, /', False), ('x: int, /, y: int', False), ('x: int, *a: int, **kw: int', False)])
    hooks, body = HOOKS, ''
    if params:
        params = ', ' + params
    if kind in ('on_install', 'on_update'):
        hooks = ''
        for n in ('on_install', 'on_update'):
            hooks += place(h, [], f'def {n}(self{params if n == kind else ""}):')
    else:
        decos = {'external': ['@external'], 'readonly': ['@external(readonly=True)'], 'eventlog': ['@eventlog'],
                 'none': []}[kind]
        body = place(h, decos, f'def m(self{params}):')
    judge(h, source(body, hooks=hooks), True if kind == 'none' else good)


@unit('C18', DEFINE + DECO + EV, cost=30)
def declare_events(h):
    """types of event parameters, any indexed count"""
    n = h.choose('params', [0, 1, 2, 3, 4])
    kinds = ['int', 'str', 'bytes', 'bool', 'Address', '"Address"']
    bad = ['', 'List[int]', 'S', 'dict', 'float', 'Optional[int]', '"int"', 'Any', 'None', 'list']
    at = h.choose('bad', [None] + list(range(n)))
    which = h.choose('hint', bad if at is not None else [None])
    off = h.choose('from', [0, 3])
    hints = [which if i == at else kinds[(i + off) % 6] for i in range(n)]
    params = ''.join(f', p{i}' + (f': {t}' if t else '') for i, t in enumerate(hints))
    count = h.choose('given', [False, True])
    indexed = h.int('indexed', lo=0) if count else 0
    deco = '@eventlog(indexed=N)' if count else '@eventlog'
    good = And(at is None, indexed <= 3, indexed <= n)
    judge(h, source(place(h, [deco], f'def Ev(self{params}):'), STRUCTS), good, {'N': indexed})


@unit('C18', DEFINE + DECO + EV)
def declare_event_form(h):
    """an event is declared with self first"""
    params, good = h.choose('params', [('self', True), ('this', False), ('x: int', False), ('self, x: int', True),
                                       ('x: int, self', False)])
    result = h.choose('result', ['', ' -> None', ' -> int'])
    judge(h, source(place(h, ['@eventlog'], f'def Ev({params}){result}:')), good)


OTHERS = {'plain': ([], 'def m(self, x: int):'), 'event': (['@eventlog'], 'def m(self, x: int):'),
          'external': (['@external'], 'def m(self, x: int):'),
          'readonly': (['@external(readonly=True)'], 'def m(self, x: int):'),
          'payable external': (['@payable', '@external'], 'def m(self):'),
          'undecorated fallback': ([], 'def fallback(self):'),
          'private': ([], 'def _m(self, *args):')}


@unit('C18', DEFINE)
def declare_external(h):
    """a contract needs an external method"""
    body, good, hooks = '', False, ''
    params = h.choose('hook params', ['', ', x: int', ', x: int = 3'])
    for n in ('on_install', 'on_update'):
        hooks += place(h, [], f'def {n}(self{params}):')
    for n, (decos, rest) in OTHERS.items():
        if h.choose(n, [False, True]):
            body += place(h, decos, rest.replace(' m(', f' m_{len(body)}('))
            good = good or n in ('external', 'readonly', 'payable external')
    judge(h, source(body, hooks=hooks, run=''), good, run=False)


@unit('C18', DEFINE)
def declare_inherited(h):
    """declarations of a base class count as the contract's own"""
    bad = h.choose('bad', [None, ('@external', 'def m(self, x: dict):'), ('@external', 'def fallback(self):'),
                           ('@eventlog', 'def m(self, x):'), ('@external', 'def m(self, *x):')])
    where = h.choose('where', ['base', 'derived', 'mixin'])
    decl = place(h, [bad[0]], bad[1]) if bad else ''
    run = h.choose('external in', ['base', 'derived'])
    src = HEAD
    src += 'class Mixin:\n    z = 1\n' + (decl if where == 'mixin' else '')
    src += CLASS.replace('Main', 'Base') + HOOKS + (RUN if run == 'base' else '') + (decl if where == 'base' else '')
    src += '\nclass Main(Base, Mixin):\n    z = 2\n' + (RUN if run == 'derived' else '') + \
        (decl if where == 'derived' else '')
    judge(h, src, bad is None)


@unit('C18', DEFINE + BASE + 'isolated')
def declare_isolated(h):
    """a method that is external and isolated is accepted (and so published
    as isolated)"""
    decos, good = h.choose('decos', [
        (['@isolated', '@external'], True), (['@external', '@isolated'], True),
        (['@isolated', '@external(readonly=True)'], True), (['@isolated', '@isolated', '@external'], False)])
    judge(h, source(place(h, decos, 'def m(self, x: int):')), good)


# ---- types of any nesting: one level, the levels below by contract ----------------

from contextlib import contextmanager
from typing import List, Optional, Union, TypedDict
from pyexec.base import exception as X
from pyexec.iconscore.typing import element as ELM


@contextmanager
def answered(name, stub):
    """calls of a function of the module are answered by its contract"""
    real = getattr(ELM, name, None)
    if real is None:
        raise AttributeError(name)
    setattr(ELM, name, lambda *a, **k: stub(real, *a, **k))
    try:
        yield real
    finally:
        setattr(ELM, name, real)


class Below:
    """an arbitrary type one level down"""


class Normal:
    """what it is normalized to"""


class Probe(TypedDict):
    a: int


class BelowStruct(TypedDict):
    """an arbitrary structure one level down"""
    a: Below


LEVEL = {'List': lambda t: List[t], 'Optional': lambda t: Optional[t], 'first None': lambda t: Union[None, t],
         'plain list': lambda t: list[t]}


@unit('C18', TYPES + EL + 'normalize_type_hint')
def declare_type_step(h):
    """lists and optional types of a type of any nesting (induction over the nesting)"""
    form = h.choose('form', sorted(LEVEL))
    bad, changes = True if h.bool('bad') else False, True if h.bool('changes') else False
    below = []

    def stub(real, hint):
        if hint is Below:
            below.append(hint)
            if bad:
                raise X.IllegalFormatException('bad')
            return Normal if changes else Below
        return real(hint)
    with answered('normalize_type_hint', stub) as real:
        o = outcome(real, LEVEL[form](Below))
    if form == 'first None' and o[0] != 'ok':
        return          # refused in any case: section 5, F9
    if not below:
        h.unsupported('the recursion does not go through normalize_type_hint')
    h.check('accepted exactly when the inner type is', Iff(o[0] == 'ok', not bad))
    if o[0] == 'ok':
        h.check('the normalized type', o[1] == LEVEL['List' if form == 'plain list' else 'Optional' if form == 'first None' else form](
            Normal if changes else Below))
    else:
        h.check('as an ill-formed declaration', isinstance(o[1], X.IllegalFormatException))


FIELDS = {'base': lambda: [int, str, bytes, bool, ELM.name_to_type('Address')], 'list': lambda: [List[Below]],
          'optional': lambda: [Optional[Below]], 'struct': lambda: [BelowStruct], 'enclosing': lambda: [],
          'bad': lambda: [dict, List, list, float, Union[int, str], object, Optional[Union[int, str]]]}


@unit('C18', EL + 'check_if_struct_is_valid ' + TYPES, cost=8)
def declare_struct_step(h):
    """a structure inside any structures, with fields of any types of which those
    one level down are well formed or not (induction over the nesting)"""
    n = h.choose('fields', [0, 1, 2, 3, 16, 17])
    at = h.choose('position', sorted({0, n // 2, n - 1})) if n else 0
    kind = h.choose('kind', sorted(FIELDS)) if n else 'base'
    nested = h.choose('enclosed', [0, 1, 2])
    list_bad, struct_bad = True if h.bool('list_bad') else False, True if h.bool('struct_bad') else False
    around = [TypedDict(f'Around{i}', {'a': int}) for i in range(nested)]
    if nested > 1:
        around[0].__annotations__['b'] = around[1]
    hints = {f'f{i}': [int, str, BelowStruct, bytes][i % 4] if kind == 'struct' else [int, str, bytes][i % 3] for i in range(n)}
    S = TypedDict('S', hints)
    if n:
        t = FIELDS[kind]()
        if kind == 'enclosing':
            t = [S] + around
        S.__annotations__[f'f{at}'] = h.choose('type', t)
    got, state = [], []

    def hint_below(real, hint):
        if hint is Below:
            got.append('list')
            if list_bad:
                raise X.IllegalFormatException('bad')
        elif hint is BelowStruct:
            h.unsupported('the recursion takes another way')
        return hint if hint is Below else real(hint)

    def struct_below(real, hint, *a):
        # whatever follows the type is how the code keeps the enclosing structures
        if hint is BelowStruct:
            got.append(a)
            if struct_bad:
                raise X.IllegalFormatException('bad')
            return None
        if hint is Probe:
            state.append(a)
            return None
        return real(hint, *a)
    with answered('normalize_type_hint', hint_below), answered('check_if_struct_is_valid', struct_below) as real:
        if around:
            around[-1].__annotations__['b'] = Probe
            outcome(real, around[0])
            if len(state) != 1:
                h.unsupported('the recursion takes another way')
        o = outcome(real, S, *(state[0] if state else ()))
        good = n <= 16 and kind not in ('bad', 'enclosing')
        if kind in ('list', 'optional'):
            if n <= 16 and 'list' not in got:
                h.unsupported('the recursion takes another way')
            good = good and not list_bad
        if kind == 'struct':
            if n <= 16 and (not got or 'list' in got):
                h.unsupported('the recursion takes another way')
            good = good and not struct_bad
            for a in got:
                for t in [S] + around:
                    if outcome(real, t, *a)[0] == 'ok':
                        h.unsupported('the enclosing structures are known in another way')
    h.check('accepted exactly when well formed', Iff(o[0] == 'ok', good))
