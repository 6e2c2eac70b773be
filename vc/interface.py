"""C17: the published interface is what the contract accepts."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from pyexec.iconscore.icon_container_db import VarDB
from vc.lib import World, Message, Address, EOA, CON, CODE, SELF, USER, outcome, wire, IconScoreLoader, Odd, Hooks, hooked, Prog, Score, addr_bytes
from vc.declare import HEAD, CLASS, HOOKS, source, deploy, interface_of, default_value
from pyexec.base import exception as X

DF = 'pyexec.iconscore.typing.definition:'
EL = 'pyexec.iconscore.typing.element:'
API = (DF + 'get_score_api ' + DF + '_get_function ' + DF + '_get_eventlog ' + DF + '_get_input ' + DF + '_get_inputs '
       + DF + '_convert_to_proxy_flag ' + EL + 'create_score_element_metadata '
       'pyexec.pyexec:PyExecEngine.api_handler pyexec.pyexec:convert_inputs pyexec.pyexec:convert_data_type '
       'pyexec.ipc.proxy:APIInfo.add_function pyexec.ipc.proxy:APIInfo.__encode_inputs '
       'pyexec.ipc.proxy:ServiceManagerProxy.__handle_get_api pyexec.service_engine:ServiceEngine.get_score_api ')
TY = DF + '_split_type_hint ' + DF + '_type_hints_to_name ' + DF + '_get_fields '
OUT = DF + '_get_outputs pyexec.pyexec:convert_output pyexec.pyexec:convert_output_data_type '
EVT = 'pyexec.ipc.proxy:APIInfo.add_event '
FB = 'pyexec.ipc.proxy:APIInfo.add_fallback ' + DF + '_is_fallback '

FUNCTION, FALLBACK, EVENT = 0, 1, 2
READONLY, EXTERNAL, PAYABLE = 1, 2, 4
LEAF = {'int': 1, 'str': 2, 'bytes': 3, 'bool': 4, 'Address': 5, '"Address"': 5, '': 2}
STRUCT = {
    'Pt': [('x', 'int'), ('y', 'str')],
    'Base': [('a', 'int'), ('b', 'str'), ('c', 'bytes'), ('d', 'bool'), ('e', 'Address')],
    'Nest': [('z', 'int'), ('p', 'Pt'), ('a', 'bool')],
    'Deep': [('n', 'Nest'), ('l', 'List[Pt]')],
    'Lists': [('a', 'List[int]'), ('b', 'List[List[str]]'), ('c', 'List[List[Pt]]')],
    'Line': [('a', 'Pt'), ('b', 'Pt')],
    'Opt': [('a', 'Optional[int]'), ('b', 'Optional[List[bytes]]'), ('c', 'Optional[Pt]')],
}
STRUCTS = ''.join(f'\nclass {n}(TypedDict):\n' + ''.join(f'    {f}: {t}\n' for f, t in fs) for n, fs in STRUCT.items())


def unwrapped(hint, form):
    return hint[len(form) + 1:-1] if hint.startswith(form + '[') else None


def code_of(hint):
    """(type code, fields or None) of a declared type"""
    inner = unwrapped(hint, 'Optional')
    if inner is not None:
        return code_of(inner)
    inner = unwrapped(hint, 'List')
    if inner is not None:
        c, f = code_of(inner)
        return c + 0x10, f
    if hint in STRUCT:
        return 8, STRUCT[hint]
    return LEAF[hint], None


def described(name, hint, default):
    """reference form of a parameter or a field"""
    c, f = code_of(hint)
    item = [name, c, default]
    if f is not None:
        item.append([described(n, t, None) for n, t in f])
    return item


def agree(a, b):
    """equal up to list/tuple"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return And(*[agree(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, int) and isinstance(b, int) or isinstance(a, str) and isinstance(b, str) or \
            isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    return False


def published(h, w):
    """the list of the reply, or None"""
    api = interface_of(w)
    h.check('one reply', api is not None)
    if api is None:
        return None
    h.check('success', api[0] == 0)
    if api[0] != 0:
        return None
    return api[1]


def expect(h, got, want):
    """exactly these entries, in any order"""
    if got is None:
        return
    h.check('exactly the declared names', sorted([x[1] for x in got]) == sorted([x[1] for x in want]))
    for e in want:
        found = [x for x in got if x[1] == e[1]]
        if len(found) != 1:
            continue
        f = found[0]
        h.check('shape', len(f) == 6)
        if len(f) != 6:
            continue
        h.check('kind', f[0] == e[0])
        h.check('flags', f[2] == e[2])
        h.check('mandatory or indexed count', f[3] == e[3])
        h.check('parameters', agree(f[4], e[4]))
        h.check('output', agree(f[5], e[5]))


def fn(name, flags, params, outputs=(), mandatory=None):
    return [FUNCTION, name, flags, len(params) if mandatory is None else mandatory, params, list(outputs)]


STD = [fn('on_install', 0, []), fn('on_update', 0, []), fn('run', EXTERNAL, [])]
RUNS = '\n    @external\n    def run(self) -> int:\n        return 7\n'


def method(decos, rest, body='return None'):
    return '\n' + ''.join(f'    {d}\n' for d in decos) + '    ' + rest + '\n        ' + body + '\n'


FLAGS = {'external': (['@external'], EXTERNAL), 'readonly': (['@external(readonly=True)'], EXTERNAL | READONLY),
         'payable': (['@payable', '@external'], EXTERNAL | PAYABLE),
         'payable2': (['@external', '@payable'], EXTERNAL | PAYABLE)}


def encoded(kind, v):
    return None if kind == 'none' else wire(v)[1]


@unit('C17', API, cost=40)
def interface_parameters(h):
    """parameters in order, with defaults of any value"""
    kind = h.choose('kind', ['external', 'readonly', 'payable', 'on_install', 'on_update'])
    n = h.choose('params', [0, 1, 2, 3])
    plain = h.choose('without default', list(range(n + 1)))
    rot = h.choose('types', [0, 1, 2, 3, 4])
    types = ['int', 'str', 'bytes', 'bool', 'Address']
    params, want, env = '', [], {}
    for i in range(n):
        t = types[(rot + i) % 5]
        # names in no particular order
        p = ['q', 'c', 'x'][i]
        if i < plain:
            params += f', {p}: {t}'
            want.append(described(p, t, None))
        else:
            dk = t if i > plain else h.choose('default', [t, 'none'])
            v = default_value(h, dk, f'd{i}')
            env[f'D{i}'] = v
            params += f', {p}: {t} = D{i}'
            want.append(described(p, t, encoded(dk, v)))
    hooks, body, exp = HOOKS, '', list(STD)
    if kind in FLAGS:
        decos, flags = FLAGS[kind]
        body = method(decos, f'def m(self{params}):')
        exp.append(fn('m', flags, want, mandatory=plain))
    else:
        hooks = ''
        for x in ('on_install', 'on_update'):
            hooks += method([], f'def {x}(self{params if x == kind else ""}) -> None:')
        exp = [fn('on_install', 0, want if kind == 'on_install' else [], mandatory=plain if kind == 'on_install' else 0),
               fn('on_update', 0, want if kind == 'on_update' else [], mandatory=plain if kind == 'on_update' else 0),
               STD[2]]
    w = World(h)
    deploy(w, source(body, hooks=hooks, run=RUNS), env)
    expect(h, published(h, w), exp)


FORMS = ['{}', 'List[{}]', 'Optional[{}]', 'List[List[{}]]', 'Optional[List[{}]]', 'Optional[List[List[{}]]]',
         'List[List[List[{}]]]', 'List[List[List[List[{}]]]]']


@unit('C17', API + TY, cost=20, bounded='parameter types: 13 leaves (six structures) under 8 list and optional forms')
def interface_types(h):
    """types and structure fields of parameters"""
    leaf = h.choose('leaf', ['int', 'str', 'bytes', 'bool', 'Address', '"Address"', ''] + list(STRUCT))
    form = h.choose('form', FORMS if leaf not in ('', '"Address"') else ['{}'])
    hint = form.format(leaf)
    none = h.choose('default', [False, True])
    kind = h.choose('kind', ['external', 'readonly'])
    decos, flags = FLAGS[kind]
    params = f', x{": " + hint if hint else ""}' + (' = None' if none else '')
    if not none:
        params += ', y: int'
    want = [described('x', hint, None)]
    if not none:
        want.append(described('y', 'int', None))
    w = World(h)
    deploy(w, source(method(decos, f'def m(self{params}):'), STRUCTS, run=RUNS))
    expect(h, published(h, w), STD + [fn('m', flags, want, mandatory=0 if none else 2)])


@unit('C17', API + TY, cost=10, bounded='lists nested up to 40 deep, structures up to 12 deep and 16 fields wide')
def interface_deep(h):
    """deep and wide parameter types"""
    lists = h.choose('lists', [0, 1, 5, 9, 15, 16, 40])
    structs = h.choose('structures', [0, 1, 2, 5, 12])
    fields = h.choose('fields', [1, 2, 8, 16])
    between = h.choose('between', ['{}', 'List[{}]', 'Optional[{}]', 'List[List[{}]]'])
    leaf = h.choose('leaf', ['int', 'Address', 'bytes'])
    text, inner, code, below = '', leaf, LEAF[leaf], None
    for i in range(structs):
        n = fields if i % 2 == 0 else 1
        at = (i + 1) % n
        # names in no particular order
        fs = [(f'f{(7 * j + 3) % 16}', inner if j == at else ['int', 'str', 'bool'][j % 3]) for j in range(n)]
        text += f'\nclass S{i}(TypedDict):\n' + ''.join(f'    {f}: {t}\n' for f, t in fs)
        below = [[f, LEAF[t], None] if j != at else [f, code, None] + ([] if below is None else [below])
                 for j, (f, t) in enumerate(fs)]
        inner, code = between.format(f'S{i}') if i + 1 < structs else f'S{i}', 8
        code += 16 * between.count('List') if i + 1 < structs else 0
    inner = 'List[' * lists + inner + ']' * lists
    want = ['x', code + 16 * lists, None] + ([] if below is None else [below])
    w = World(h)
    deploy(w, source(method(['@external'], f'def m(self, x: {inner}, y: str):'), text, run=RUNS))
    expect(h, published(h, w), STD + [fn('m', EXTERNAL, [want, ['y', 2, None]])])


OUTPUTS = {'int': [1], 'str': [2], 'bytes': [3], 'bool': [4], 'Address': [5], 'list': [6], 'List[int]': [6],
           'List[List[str]]': [6], 'dict': [7], 'Dict[str, int]': [7], 'Pt': [7], 'Nest': [7], 'List[Pt]': [6],
           'None': [], '': []}


@unit('C17', API + OUT)
def interface_outputs(h):
    """output types"""
    result = h.choose('result', list(OUTPUTS))
    kind = h.choose('kind', list(FLAGS))
    decos, flags = FLAGS[kind]
    w = World(h)
    deploy(w, source(method(decos, f'def m(self, x: int){" -> " + result if result else ""}:'), STRUCTS, run=RUNS))
    got = published(h, w)
    if got is None:
        return
    out = [x for x in got if x[1] == 'm']
    h.check('published', len(out) == 1)
    if len(out) == 1:
        h.check('flags', out[0][2] == flags)
        if kind == 'readonly':
            h.check('output type', agree(out[0][5], OUTPUTS[result]))
        else:
            # the output of a method that may write is not published
            h.check('output type', Or(len(out[0][5]) == 0, agree(out[0][5], OUTPUTS[result])))


@unit('C17', API + EVT, cost=20)
def interface_events(h):
    """events, any indexed count"""
    n = h.choose('params', [0, 1, 2, 3, 4, 5])
    rot = h.choose('types', [0, 1, 2, 3, 4, 5])
    types = ['int', 'str', 'bytes', 'bool', 'Address', '"Address"']
    plain = h.choose('without default', sorted({0, n // 2, n}))
    params, want = '', []
    for i in range(n):
        t = types[(rot + i) % 6]
        p = ['q', 'c', 'x', 'b', 'm'][i]
        params += f', {p}: {t}' + ('' if i < plain else ' = None')
        want.append(described(p, t, None))
    indexed = h.int('indexed', lo=0, hi=3)
    h.assume(indexed <= n)
    w = World(h)
    deploy(w, source(method(['@eventlog(indexed=N)'], f'def Ev(self{params}):'), run=RUNS), {'N': indexed})
    expect(h, published(h, w), STD + [[EVENT, 'Ev', 0, indexed, want, []]])


MEMBERS = {
    'a_plain': ([], 'def a_plain(self, x: int):', None),
    '_private': ([], 'def _private(self):', None),
    'b_ext': (['@external'], 'def b_ext(self, x: int):', fn('b_ext', EXTERNAL, [['x', 1, None]])),
    '_ext': (['@external'], 'def _ext(self):', fn('_ext', EXTERNAL, [])),
    'c_read': (['@external(readonly=True)'], 'def c_read(self) -> str:', fn('c_read', EXTERNAL | READONLY, [], [2])),
    'd_pay': (['@payable', '@external'], 'def d_pay(self):', fn('d_pay', EXTERNAL | PAYABLE, [])),
    'e_only': (['@payable'], 'def e_only(self, x: int):', None),
    'F_event': (['@eventlog(indexed=1)'], 'def F_event(self, x: str):', [EVENT, 'F_event', 0, 1, [['x', 2, None]], []]),
    'fallback': (['@payable'], 'def fallback(self):', [FALLBACK, 'fallback', PAYABLE, 0, [], []]),
}


@unit('C17', API + FB + EVT, cost=30)
def interface_members(h):
    """every subset of the kinds of members"""
    body, want = '', list(STD)
    for n, (decos, rest, e) in MEMBERS.items():
        if h.choose(n, [False, True]):
            body += method(decos, rest)
            if e is not None:
                want.append(e)
    w = World(h)
    deploy(w, source(body, run=RUNS))
    expect(h, published(h, w), want)


@unit('C17', API + FB)
def interface_fallback(h):
    """the fallback is published when it can be called"""
    decos = h.choose('decos', [[], ['@payable']])
    result = h.choose('result', ['', ' -> None'])
    w = World(h)
    deploy(w, source(method(decos, f'def fallback(self){result}:'), run=RUNS))
    expect(h, published(h, w), STD + ([[FALLBACK, 'fallback', PAYABLE, 0, [], []]] if decos else []))


ALIAS = {
    'external': (method(['@external'], 'def m(self, x: int):'), 'm', lambda n: fn(n, EXTERNAL, [['x', 1, None]])),
    'readonly': (method(['@external(readonly=True)'], 'def m(self) -> str:'), 'm',
                 lambda n: fn(n, EXTERNAL | READONLY, [], [2])),
    'payable': (method(['@payable', '@external'], 'def m(self):'), 'm', lambda n: fn(n, EXTERNAL | PAYABLE, [])),
    'private': (method(['@external'], 'def __m(self):'), '_Main__m', lambda n: fn(n, EXTERNAL, [])),
    'event': (method(['@eventlog'], 'def m(self, x: int):'), 'm', lambda n: [EVENT, 'm', 0, 0, [['x', 1, None]], []]),
    'fallback': (method(['@payable'], 'def fallback(self):'), 'fallback', lambda n: [FALLBACK, 'fallback', PAYABLE, 0, [], []]),
    'plain': (method([], 'def m(self):'), 'm', None),
    'only payable': (method(['@payable'], 'def m(self):'), 'm', None),
}


@unit('C17 C11', API + FB + EVT)
def interface_alias(h):
    """a member under more than one name: a method is published by the names it
    can be called by, an event once, by the name it is recorded by"""
    kind = h.choose('kind', sorted(ALIAS))
    text, first, entry = ALIAS[kind]
    names = h.choose('other names', [[], ['other'], ['a', 'z'], ['_m']])
    if kind == 'plain':
        names = h.choose('hook', [[], ['on_install'], ['on_update']])
    if kind == 'only payable':
        names = h.choose('fallback', [[], ['fallback']])
    target = '__m' if kind == 'private' else first
    text += ''.join(f'\n    {n} = {target}\n' for n in names)
    want = [] if entry is None else [entry(first)]
    if kind in ('external', 'readonly', 'payable', 'private'):
        want += [entry(n) for n in names]
    if kind == 'only payable' and names:
        want += [ALIAS['fallback'][2]('')]
    w = World(h)
    deploy(w, source(text, run=RUNS))
    got = published(h, w)
    expect(h, got, STD + want)
    if got is None or kind == 'event':
        return
    # what is published is what can be called
    for n in ['m', '__m', '_Main__m', 'other', 'a', 'z', '_m', 'fallback', 'on_install']:
        entries = [e for e in got if e[1] == n]
        r = w.invoke(n, params=[7] if kind == 'external' and entries and n != 'on_install' else [], costs={})
        h.check('callable exactly when published', r is not None and (r[0] == 0) == bool(entries))


@unit('C17', API)
def interface_inherited(h):
    """inherited members are published, overriding ones replace them"""
    base = h.choose('base', [None] + list(FLAGS) + ['eventlog', 'plain'])
    derived = h.choose('derived', [None] + list(FLAGS) + ['eventlog', 'plain'])
    mixin = h.choose('mixin', [None, 'external', 'readonly'])
    decl = dict({k: (d, fn('m', f, [['x', 1, None]])) for k, (d, f) in FLAGS.items()},
                eventlog=(['@eventlog'], [EVENT, 'm', 0, 0, [['x', 1, None]], []]), plain=([], None))
    part = {}
    for where, k in (('base', base), ('derived', derived), ('mixin', mixin)):
        part[where] = method(decl[k][0], 'def m(self, x: int):') if k else ''
    src = HEAD + '\nclass Mixin:\n    z = 1\n' + part['mixin']
    src += CLASS.replace('Main', 'Base') + HOOKS + RUNS + part['base']
    order = h.choose('order', ['Base, Mixin', 'Mixin, Base'])
    src += f'\nclass Main({order}):\n    z = 2\n' + part['derived']
    seq = [derived] + ([base, mixin] if order == 'Base, Mixin' else [mixin, base])
    eff = [k for k in seq if k]
    e = decl[eff[0]][1] if eff else None
    w = World(h)
    deploy(w, src)
    expect(h, published(h, w), STD + ([e] if e else []))


@unit('C17', API + 'pyexec.iconscore.icon_score_base:IconScoreBase.__call '
                   'pyexec.iconscore.icon_score_base:IconScoreBase.__check_payable', cost=20)
def interface_callable(h):
    """what is published as external is callable from outside, with value if
    and only if it is payable, and nothing else is"""
    w = World(h)
    body, ran = '', []
    for n, (decos, rest, e) in MEMBERS.items():
        body += method(decos, rest.replace(', x: int', '').replace(' -> str', ''), f'return RAN.append({n!r})')
    deploy(w, source(body, run=RUNS), {'RAN': ran})
    got = published(h, w)
    if got is None:
        return
    name = h.choose('name', list(MEMBERS) + ['missing', 'msg', 'now', 'get_owner'])
    value = h.int('value', lo=0)
    r = w.invoke(name, value=value, costs={})
    h.check('answered', r is not None)
    if r is None:
        return
    pub = [x for x in got if x[1] == name and x[0] in (FUNCTION, FALLBACK)]
    if len(pub) == 0:
        h.check('not published, not callable', And(r[0] != 0, ran == []))
        return
    flags = pub[0][2]
    ok = Or(flags & PAYABLE != 0, value == 0)
    h.check('published, callable', Implies(ok, And(r[0] == 0, ran == [name])))
    h.check('not payable, refuses value', Implies(Not(ok), And(r[0] != 0, ran == [])))
    if pub[0][0] == FUNCTION:
        h.check('external', flags & EXTERNAL != 0)


DEFAULTS = {'text of an int': ('int', lambda: hooked(int, ['__str__', '__repr__', '__format__'])(7)),
            'text of a str': ('str', lambda: hooked(str, ['__str__', '__repr__', '__format__'])('x')),
            'bytes of a str': ('str', lambda: hooked(str, ['encode'])('x')),
            'bytes of an int': ('int', lambda: hooked(int, ['to_bytes', '__int__', '__index__', 'bit_length', '__lt__', '__gt__',
                                                            '__ge__', '__le__', '__invert__', '__add__', '__sub__'])(7)),
            'comparison': ('bytes', lambda: hooked(bytes, ['__eq__', '__ne__', '__hash__'])(b'x')),
            'truth': ('int', lambda: hooked(int, ['__bool__'])(7))}


@unit('C17 C12', 'pyexec.service_engine:ServiceEngine.get_score_api pyexec.ipc.proxy:ServiceManagerProxy.__handle_get_api '
      'pyexec.pyexec:PyExecEngine.api_handler')
def interface_default_hooks(h):
    """defaults of a contract whose own code fails when they are described or encoded: one reply all the same"""
    t, make = DEFAULTS[h.choose('default', sorted(DEFAULTS))]
    Hooks.error = h.choose('error', [ValueError, X.IconScoreException, X.IllegalFormatException, SystemExit, StopIteration, Odd])
    w = World(h)
    deploy(w, source(method(['@external'], f'def m(self, x: {t} = D):'), run=RUNS), {'D': make()})
    api = interface_of(w)
    h.check('one reply', api is not None)
    if api is None:
        return
    if api[0] == 0:
        m = [x for x in api[1] if x[1] == 'm']
        h.check('as declared', len(m) == 1 and agree(m[0][4], [['x', LEAF[t], b'\x07' if t == 'int' else b'x']]))
    r = w.invoke('run', costs={})
    h.check('the executor is ready', r is not None)


@unit('C17', 'pyexec.service_engine:ServiceEngine.get_score_api pyexec.ipc.proxy:ServiceManagerProxy.__handle_get_api '
             'pyexec.pyexec:PyExecEngine.api_handler')
def interface_failure(h):
    """a contract that cannot be loaded gives a failure status"""
    w = World(h)
    how = h.choose('how', ['missing', 'load', 'class', 'init', 'none external'])
    err = h.choose('error', [KeyError('main_score'), X.IllegalFormatException('x'), ImportError(), SyntaxError('x'),
                             SystemExit(), AttributeError(), X.InvalidParamsException('x'), KeyboardInterrupt(),
                             RecursionError()])
    if how == 'class':
        deploy(w, source('\n    @external\n    def m(self, x: dict):\n        return 1\n'))
    elif how == 'none external':
        deploy(w, source('', run=''))
    else:
        def load(path):
            if how == 'missing':
                return None
            if how == 'load':
                raise err
            return Score
        IconScoreLoader.load_module = staticmethod(load)

        def init(s):
            raise err
        if how == 'init':
            Prog.init = init
    api = interface_of(w)
    h.check('one reply', api is not None)
    if api is None:
        return
    h.check('failure', And(api[0] != 0, api[1] is None))
    # the executor goes on
    Prog.init = None
    Prog.run = lambda s: 5
    IconScoreLoader.load_module = staticmethod(lambda p: Score)
    w.deliver((Message.GETAPI, spec.UTF8(CODE + '2')))
    sent = w.node.sent(Message.GETAPI)
    h.check('the next is published', And(len(sent) == 2, sent[-1][0] == 0))


@unit('C17', API)
def interface_unanswerable(h):
    """a request that cannot be read, or an interface that cannot be sent: one
    reply, a failure, and the next request is answered"""
    w = World(h)
    kind = h.choose('kind', ['code', 'default'])
    odd = 'a' + chr(0xd800)
    if kind == 'code':
        data = h.choose('bytes', [b'\xff', b'/a\xc3', b'\xed\xa0\x80', None])
    else:
        data = spec.UTF8(CODE)
        deploy(w, source('\n    @external\n    def m(self, p: int = 1, x: str = D):\n        return None\n'), {'D': odd})
    w.deliver((Message.GETAPI, data))
    sent = w.node.sent(Message.GETAPI)
    h.check('one reply', len(sent) == 1)
    if len(sent) == 1:
        h.check('failure', And(sent[0][0] != 0, sent[0][1] is None))
    IconScoreLoader.load_module = staticmethod(lambda p: Score)
    w.deliver((Message.GETAPI, spec.UTF8(CODE + '2')))
    sent = w.node.sent(Message.GETAPI)
    h.check('the next is published', And(len(sent) == 2, sent[-1][0] == 0))


@unit('C17', API + 'pyexec.ipc.proxy:ServiceManagerProxy.call')
def interface_during_call(h):
    """the interface is asked for while an execution waits for a call: the same
    answer, and the execution goes on as before"""
    w = World(h)
    n = h.choose('questions', [1, 2])
    bad = h.choose('unknown package', [False, True])
    k, v = h.int('k'), h.bytes('v', lo=1)
    want = [0, 0]
    if not bad:
        got = interface_of(w)
        if got is None:
            h.check('one reply', False)
            return
        want = got
    before = len(w.node.sent(Message.GETAPI))
    box = []

    def on_call(node, data):
        for i in range(n):
            node.replies.append((Message.GETAPI, spec.UTF8('none' if bad else CODE)))
        node.replies.append((Message.RESULT, [0, spec.I2B(3), wire(k)]))
    w.node.on_call = on_call

    def run(s):
        box.append(s.call(SELF, 'foo', {}))
        VarDB('x', s.db, bytes).set(v)
        return s.msg.sender
    Prog.run = run
    r = w.invoke('run', frm=USER, costs={})
    sent = w.node.sent(Message.GETAPI)
    h.check('one reply for each', len(sent) == before + n)
    for a in sent[before:]:
        if bad:
            h.check('failure', And(a[0] != 0, a[1] is None))
        else:
            h.check('the same interface', And(a[0] == 0, agree(a[1], want[1])))
    h.check('the execution goes on', r is not None)
    if r is not None:
        h.check('its result', And(r[0] == 0, r[1] == 3, spec.same(r[2], USER), len(box) == 1, box[0] == k))
    h.check('it writes as before', len(w.node.sent(Message.SETVALUE)) == 1)
