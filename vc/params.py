"""C16: named text parameters."""

from typing import Optional, Union

from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, Prog, Message, Address, EOA, CON, OTHER, USER, SELF, outcome, external, payable, IconScoreBase,
                    wire, sym_address, CODE)
from vc.outcome import one_result

CV = ('pyexec.service_engine:decode_params pyexec.service_engine:ServiceEngine._internal_call '
      'pyexec.service_engine:ServiceEngine._convert_score_params_by_annotations '
      'pyexec.base.type_converter:TypeConverter.make_annotations_from_method '
      'pyexec.base.type_converter:TypeConverter.convert_data_params '
      'pyexec.base.type_converter:TypeConverter._convert_data_value '
      'pyexec.utils:get_main_type_from_annotations_type ')
EACH = {int: 'pyexec.base.type_converter:TypeConverter._convert_value_int ',
        bool: 'pyexec.base.type_converter:TypeConverter._convert_value_bool ',
        str: 'pyexec.base.type_converter:TypeConverter._convert_value_string ',
        bytes: 'pyexec.base.type_converter:TypeConverter._convert_value_bytes ',
        Address: 'pyexec.base.type_converter:TypeConverter._convert_value_address '}
ALL = CV + ' '.join(EACH.values())
SEEN = []


class Typed(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)

    def on_install(self, a: int = 9, b: str = 'd'):
        SEEN.append((a, b))

    def on_update(self, a: Address, b: bytes = b'd'):
        SEEN.append((a, b))

    @external
    def m_int(self, a: int):
        SEEN.append((a,))

    @external
    def m_bool(self, a: bool):
        SEEN.append((a,))

    @external
    def m_str(self, a: str):
        SEEN.append((a,))

    @external(readonly=True)
    def m_bytes(self, a: bytes):
        SEEN.append((a,))

    @payable
    @external
    def m_addr(self, a: Address):
        SEEN.append((a,))

    @external
    def o_int(self, a: int = 9):
        SEEN.append((a,))

    @external
    def o_bool(self, a: bool = None):
        SEEN.append((a,))

    @external
    def o_str(self, a: str = 'd'):
        SEEN.append((a,))

    @external
    def o_bytes(self, a: bytes = b'd'):
        SEEN.append((a,))

    @external
    def o_addr(self, a: Address = None):
        SEEN.append((a,))

    @external
    def u_int(self, a: Optional[int]):
        SEEN.append((a,))

    @external
    def u_bool(self, a: Optional[bool] = None):
        SEEN.append((a,))

    @external
    def u_str(self, a: Union[str, None] = 'd'):
        SEEN.append((a,))

    @external
    def u_bytes(self, a: Union[bytes, None] = None):
        SEEN.append((a,))

    @external
    def u_addr(self, a: 'Address'):
        SEEN.append((a,))

    @external
    def v_int(self, a: Union[int, None] = None):
        SEEN.append((a,))

    @external
    def v_bool(self, a: Union[bool, None]):
        SEEN.append((a,))

    @external
    def v_str(self, a):
        SEEN.append((a,))

    @external
    def v_bytes(self, a: Optional[bytes]):
        SEEN.append((a,))

    @external
    def v_addr(self, a: Optional[Address] = None):
        SEEN.append((a,))

    @external
    def many(self, a: int, b: Address, c: bool, d: str, e: bytes = b'e', f: int = None):
        SEEN.append((a, b, c, d, e, f))

    @external
    def swapped(self, to: Address, value: int = 5, data: bytes = None) -> int:
        SEEN.append((to, value, data))
        return value


NAMES = {int: 'int', bool: 'bool', str: 'str', bytes: 'bytes', Address: 'addr'}
DEFAULT = {int: 9, bool: None, str: 'd', bytes: b'd', Address: None}


def int_of(t):
    if t.startswith('0x') or t.startswith('-0x'):
        return int(t, 16)
    return int(t)


def denotes(ty, t):
    """the value the text denotes; raises when there is none"""
    if ty is int:
        return int_of(t)
    if ty is bool:
        return int_of(t) != 0
    if ty is str:
        return t
    if ty is bytes:
        return bytes.fromhex(t[2:] if t.startswith('0x') else t)
    if len(t) != 42:
        raise ValueError()
    if t.startswith('hx'):
        p = EOA
    elif t.startswith('cx'):
        p = CON
    else:
        raise ValueError()
    b = bytes.fromhex(t[2:])
    if len(b) != 20:
        raise ValueError()
    if spec.HEX(b) != t[2:]:
        raise ValueError()
    return Address(p, b)


def raw(params):
    """the other wire form: a plain map of encoded text"""
    m = {}
    for k, v in params.items():
        m[k.encode()] = None if v is None else spec.UTF8(v)
    return m


def invoke(h, w, method, params, form='typed', **k):
    SEEN.clear()
    if form == 'raw':
        return w.invoke(method, params_wire=raw(params), costs={}, **k)
    return w.invoke(method, params=params, costs={}, **k)


def one_param(h, ty, texts):
    w = World(h, Typed)
    method = h.choose('method', ['m_', 'o_', 'u_', 'v_']) + NAMES[ty]
    t = texts(h)
    form = h.choose('form', ['typed', 'bytes', 'raw'])
    p = {'a': spec.UTF8(t) if form == 'bytes' else t}
    want = outcome(denotes, ty, t)
    r = invoke(h, w, method, p, form)
    if not one_result(h, w, r):
        return
    if want[0] == 'ok':
        h.check('accepted', And(r[0] == 0, len(SEEN) == 1))
        if len(SEEN) == 1:
            h.check('the value denoted', spec.same(SEEN[0][0], want[1]))
    else:
        h.check('refused', And(r[0] != 0, len(SEEN) == 0))


def any_text(h):
    pre = h.choose('prefix', ['', '0x', '-0x', '-', '0X', ' 0x', '0', 'hx', 'cx'])
    t = h.str('t', hi=60)
    if not h.symbolic:
        t = h.choose('alphabet', [lambda: t, lambda: ''.join('0123456789'[ord(c) % 10] for c in t),
                                  lambda: ''.join('0123456789abcdef'[ord(c) % 16] for c in t),
                                  lambda: ''.join('0123456789abcdefABCDEF_ xg'[ord(c) % 26] for c in t),
                                  lambda: ''.join('0123456789abcdef'[ord(c) % 16] for c in (t + 'q' * 40)[:40])])()
    return spec.cat(pre, t)


@unit('C16', CV + EACH[int])
def param_int(h):
    """an integer parameter, any text"""
    one_param(h, int, any_text)


@unit('C16', CV + EACH[bool] + EACH[int])
def param_bool(h):
    one_param(h, bool, any_text)


@unit('C16', CV + EACH[str])
def param_str(h):
    one_param(h, str, any_text)


@unit('C16', CV + EACH[bytes])
def param_bytes(h):
    one_param(h, bytes, any_text)


@unit('C16', CV + EACH[Address] + 'pyexec.base.address:Address.from_string pyexec.base.address:is_icon_address_valid '
             'pyexec.base.address:split_icon_address pyexec.base.address:AddressPrefix.from_string '
             'pyexec.utils:is_lowercase_hex_string')
def param_address(h):
    one_param(h, Address, any_text)


@unit('C16', ALL)
def param_known(h):
    """texts made from a value"""
    w = World(h, Typed)
    ty = h.choose('type', [int, bool, str, bytes, Address])
    if ty is int:
        v = h.int('v')
        t = str(v)
        if not h.symbolic:
            t = h.choose('notation', [t, hex(v)])
    elif ty is bool:
        v = h.int('v')
        t = str(v)
        v = v != 0
    elif ty is str:
        t = v = h.str('v')
    elif ty is bytes:
        v = h.bytes('v')
        t = spec.cat(h.choose('prefix', ['', '0x']), spec.HEX(v))
    else:
        v = sym_address(h, 'v')
        t = spec.cat('cx' if v.prefix == CON else 'hx', spec.HEX(v.body))
    r = invoke(h, w, h.choose('method', ['m_', 'o_', 'u_', 'v_']) + NAMES[ty], {'a': t})
    if one_result(h, w, r):
        h.check('accepted', And(r[0] == 0, len(SEEN) == 1))
        if len(SEEN) == 1:
            h.check('value', spec.same(SEEN[0][0], v))


FIXED = [(int, '0', 0), (int, '-5', -5), (int, '0x10', 16), (int, '-0x10', -16), (int, '0xfF', 255), (int, '010', 10),
         (int, '100000000000000000000', 10 ** 20), (int, 'ff', None), (int, '', None), (int, '0x', None),
         (int, '1.0', None), (int, 'x', None), (int, '0xg', None), (int, '-', None), (int, '-0x', None),
         (bool, '0', False), (bool, '1', True), (bool, '0x0', False), (bool, '0x1', True), (bool, '2', True),
         (bool, 'true', None), (bool, 'True', None), (bool, '', None), (bool, '-1', True), (bool, '-0x0', False),
         (str, '', ''), (str, '0x12', '0x12'), (str, ' a ', ' a '), (str, 'None', 'None'),
         (bytes, '', b''), (bytes, '0x', b''), (bytes, '0x1234', b'\x12\x34'), (bytes, '1234', b'\x12\x34'),
         (bytes, '0xABcd', b'\xab\xcd'), (bytes, '0x123', None), (bytes, '0xzz', None), (bytes, '00x0', None),
         (bytes, '0x0x12', None),
         (Address, 'hx' + '0' * 40, Address(EOA, bytes(20))), (Address, 'cx' + 'ab' * 20, Address(CON, b'\xab' * 20)),
         (Address, 'cx' + 'AB' * 20, None), (Address, '', None), (Address, 'hx', None), (Address, '0x' + '0' * 40, None),
         (Address, 'hx' + '0' * 39, None), (Address, 'hx' + '0' * 41, None), (Address, 'cx' + '0' * 39 + 'g', None)]


@unit('C16', ALL)
def param_examples(h):
    """fixed texts of each form; also the anchor of the functions left
    uninterpreted for arbitrary texts"""
    w = World(h, Typed)
    ty, t, v = h.choose('example', FIXED)
    r = invoke(h, w, h.choose('method', ['m_', 'o_', 'u_', 'v_']) + NAMES[ty], {'a': t}, h.choose('form', ['typed', 'raw']))
    if not one_result(h, w, r):
        return
    if v is None:
        h.check('refused', And(r[0] != 0, SEEN == []))
    else:
        h.check('value', And(r[0] == 0, len(SEEN) == 1))
        if len(SEEN) == 1:
            h.check('as denoted', spec.same(SEEN[0][0], v))


@unit('C16', ALL)
def param_absent(h):
    """an absent or null parameter is left to its default"""
    w = World(h, Typed)
    ty = h.choose('type', [int, bool, str, bytes, Address])
    how = h.choose('how', ['absent', 'null', 'mandatory absent', 'other name', 'wrong name'])
    form = h.choose('form', ['typed', 'raw'])
    t = h.str('t')
    method = ('m_' if how == 'mandatory absent' else 'o_') + NAMES[ty]
    p = {'absent': {}, 'null': {'a': None}, 'mandatory absent': {}, 'other name': {'b': t}, 'wrong name': {'A': '1'}}[how]
    r = invoke(h, w, method, p, form)
    if not one_result(h, w, r):
        return
    if how == 'absent':
        h.check('default', And(r[0] == 0, len(SEEN) == 1))
        if len(SEEN) == 1:
            h.check('as declared', spec.same(SEEN[0][0], DEFAULT[ty]))
    elif how == 'null':
        h.check('no value', And(r[0] == 0, len(SEEN) == 1))
        if len(SEEN) == 1:
            h.check('null or default', Or(SEEN[0][0] is None, spec.same(SEEN[0][0], DEFAULT[ty])))
    else:
        h.check('refused', And(r[0] != 0, len(SEEN) == 0))


@unit('C16', ALL)
def param_wrong_type(h):
    """a value that is not text has no meaning as a named parameter"""
    w = World(h, Typed)
    ty = h.choose('type', [int, bool, str, bytes, Address])
    v = h.choose('value', [lambda: h.int('i'), lambda: h.bool('b'), lambda: sym_address(h, 'a'), lambda: [], lambda: ['1'],
                           lambda: {}, lambda: {'x': '1'}])()
    r = invoke(h, w, h.choose('method', ['m_', 'o_', 'u_']) + NAMES[ty], {'a': v})
    if one_result(h, w, r):
        h.check('refused', And(r[0] != 0, len(SEEN) == 0))


@unit('C16', ALL)
def param_bad_utf8(h):
    """bytes that are not text"""
    w = World(h, Typed)
    ty = h.choose('type', [int, bool, str, bytes, Address])
    b = h.choose('bytes', [b'\xff', b'1\xc0', b'0x\x80'])
    r = w.invoke('m_' + NAMES[ty], params=None, params_wire=h.choose('form', [{b'a': b}, [1, {b'a': [3, b]}]]), costs={})
    if one_result(h, w, r):
        h.check('refused', And(r[0] != 0, len(SEEN) == 0))


@unit('C16', ALL, cost=9)
def param_many(h):
    """several parameters: each gets its own text"""
    w = World(h, Typed)
    i, j = h.int('i'), h.int('j')
    adr = sym_address(h, 'adr')
    c = h.int('c')
    d, e = h.str('d'), h.bytes('e')
    at = spec.cat('cx' if adr.prefix == CON else 'hx', spec.HEX(adr.body))
    texts = {'a': str(i), 'b': at, 'c': str(c), 'd': d, 'e': spec.cat('0x', spec.HEX(e)), 'f': str(j)}
    want = {'a': i, 'b': adr, 'c': c != 0, 'd': d, 'e': e, 'f': j}
    drop = h.choose('drop', [None, 'a', 'd', 'e', 'f'])
    null = h.choose('null', [None, 'b', 'e', 'f'])
    p = {}
    for k in h.choose('order', ['abcdef', 'fedcba', 'cfaebd']):
        if k != drop:
            p[k] = None if k == null else texts[k]
    extra = h.choose('extra', [None, 'g', 'self'])
    if extra is not None:
        p[extra] = '1'
    r = invoke(h, w, 'many', p, h.choose('form', ['typed', 'raw']))
    if not one_result(h, w, r):
        return
    if extra is not None or drop in ('a', 'd'):
        h.check('refused', And(r[0] != 0, len(SEEN) == 0))
        return
    h.check('accepted', And(r[0] == 0, len(SEEN) == 1))
    if len(SEEN) != 1:
        return
    for n, k in enumerate('abcdef'):
        got = SEEN[0][n]
        if k == drop:
            h.check(f'{k} default', spec.same(got, {'e': b'e', 'f': None}[k]))
        elif k == null:
            h.check(f'{k} null', Or(got is None, spec.same(got, {'b': None, 'e': b'e', 'f': None}[k])))
        else:
            h.check(f'{k} its own', spec.same(got, want[k]))


@unit('C16', ALL)
def param_one_bad(h):
    """one text that denotes nothing spoils the invocation"""
    w = World(h, Typed)
    texts = {'a': str(h.int('i')), 'b': 'hx' + '1' * 40, 'c': '1', 'd': h.str('d'), 'e': '0x', 'f': '2'}
    bad = h.choose('bad', ['a', 'b', 'c', 'e', 'f'])
    texts[bad] = h.choose('text', ['zz', 'hx12', '0xg', ' x', '0x123 4x'])
    r = invoke(h, w, 'many', texts)
    if one_result(h, w, r):
        h.check('refused', And(r[0] != 0, len(SEEN) == 0))


@unit('C16', ALL)
def param_hooks(h):
    """the install and update hooks take parameters like methods do"""
    w = World(h, Typed)
    if h.choose('hook', ['install', 'update']) == 'install':
        i, s = h.int('i'), h.str('s')
        p, want = {'a': str(i), 'b': s}, (i, s)
        m, d = 'on_install', (9, 'd')
    else:
        a, b = sym_address(h, 'a'), h.bytes('b')
        p, want = {'a': spec.cat('cx' if a.prefix == CON else 'hx', spec.HEX(a.body)), 'b': spec.HEX(b)}, (a, b)
        m, d = 'on_update', (None, b'd')
    drop = h.choose('drop', [False, True])
    if drop:
        del p['b']
    r = invoke(h, w, m, p)
    if one_result(h, w, r):
        h.check('accepted', And(r[0] == 0, len(SEEN) == 1))
        if len(SEEN) == 1:
            h.check('a', spec.same(SEEN[0][0], want[0]))
            h.check('b', spec.same(SEEN[0][1], d[1] if drop else want[1]))


def sym_any(h, n):
    return h.choose(n + ' type', [lambda: h.int(n + 'i'), lambda: h.str(n + 's'), lambda: h.bytes(n + 'b'),
                                  lambda: h.bool(n + 'o'), lambda: sym_address(h, n + 'a'), lambda: None])()


@unit('C16', CV, cost=3)
def param_positional(h):
    """positional parameters arrive unchanged"""
    w = World(h, Typed)
    m = h.choose('method', ['m_int', 'm_str', 'm_bytes', 'o_addr', 'o_bool', 'swapped', 'on_update'])
    if m in ('swapped', 'on_update'):
        p = [sym_any(h, 'x'), sym_any(h, 'y')]
    else:
        p = [h.choose('nest', [lambda: sym_any(h, 'x'), lambda: [sym_any(h, 'x'), 5], lambda: {'k': sym_any(h, 'x')}])()]
    r = invoke(h, w, m, p)
    if one_result(h, w, r):
        h.check('ran', len(SEEN) == 1)
        if len(SEEN) == 1:
            for i, v in enumerate(p):
                h.check('unchanged', spec.same(SEEN[0][i], v))


@unit('C16', CV)
def param_not_shared(h):
    """a following invocation starts from its own texts"""
    w = World(h, Typed)
    i, j = h.int('i'), h.int('j')
    r = invoke(h, w, 'o_int', {'a': str(i)})
    h.check('first', And(len(SEEN) == 1, SEEN[0][0] == i))
    second = h.choose('second', ['other', 'absent', 'method', 'positional'])
    if second == 'other':
        r = invoke(h, w, 'o_int', {'a': str(j)})
        h.check('its own', And(len(SEEN) == 1, SEEN[0][0] == j))
    elif second == 'absent':
        r = invoke(h, w, 'o_int', {})
        h.check('default', And(len(SEEN) == 1, SEEN[0][0] == 9))
    elif second == 'method':
        r = invoke(h, w, 'o_str', {'a': '5'})
        h.check('text', And(len(SEEN) == 1, spec.same(SEEN[0][0], '5')))
    else:
        r = invoke(h, w, 'o_int', [])
        h.check('default', And(len(SEEN) == 1, SEEN[0][0] == 9))
