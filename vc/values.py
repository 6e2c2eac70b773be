"""C02: typed values on the wire.  C03: addresses."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff

from pyexec.ipc import client as ipc_client
from pyexec.base.address import MalformedAddress
from vc.lib import Address, EOA, CON, World, Message, wire, addr_bytes, sym_address, outcome, AddressPrefix

WIRE = ('pyexec.ipc.proxy:ServiceManagerProxy.encode_any pyexec.ipc.proxy:ServiceManagerProxy.decode_any '
        'pyexec.ipc.proxy:ServiceManagerProxy.encode pyexec.ipc.proxy:ServiceManagerProxy.decode '
        'pyexec.pyexec:EECodec.encode pyexec.pyexec:EECodec.decode')


def plain(x):
    """tuples and lists are the same on the wire"""
    if isinstance(x, (list, tuple)):
        return [plain(e) for e in x]
    if isinstance(x, dict):
        m = {}
        for k, v in x.items():
            m[k] = plain(v)
        return m
    return x


LEAVES = ['none', 'bool', 'int', 'bytes', 'str', 'address']


def leaf(h, name, kinds=LEAVES):
    k = h.choose(name + '_kind', kinds)
    if k == 'none':
        return None
    if k == 'bool':
        return True if h.bool(name) else False
    if k == 'int':
        return h.int(name)
    if k == 'bytes':
        return h.bytes(name)
    if k == 'str':
        return h.str(name)
    return Address(h.choose(name + '_prefix', [EOA, CON]), h.bytes(name, n=20))


def kind_of(o):
    for k, t in (('none', type(None)), ('bool', bool), ('int', int), ('bytes', bytes), ('str', str)):
        if isinstance(o, t):
            return k
    return 'address'


def roundtrip(h, o):
    w = World(h)
    want = wire(o)
    tag, val = w.proxy.encode_any(o)
    h.check('tagged form', spec.same(plain([tag, val]), want))
    h.check('decodes to an equal value of the same type', spec.same(w.proxy.decode_any(want), o))
    back = w.proxy.decode_any([tag, val])
    h.check('round trip', spec.same(back, o))


@unit('C02', WIRE)
def wire_leaf(h):
    o = leaf(h, 'v')
    roundtrip(h, o)
    w = World(h)
    h.check('bare form', spec.same(w.proxy.encode(o), wire(o)[1]))


@unit('C02', WIRE)
def wire_sequence(h):
    """values one after another on the same connection do not affect each other"""
    w = World(h)
    same = h.choose('close', [False, True])
    first = leaf(h, 'u')
    second = leaf(h, 'v', ['none', 'bool', 'int', 'bytes', 'str'] if same else LEAVES)
    if same:
        # equal under ==, or with equal bytes, but of another type
        second = {'none': b'', 'bool': 1, 'int': True, 'bytes': 'A', 'str': b'A'}.get(kind_of(first), second)
        first = {'bool': True, 'int': 1, 'bytes': b'A', 'str': 'A'}.get(kind_of(first), first)
    order = h.choose('order', ['encode', 'decode', 'both'])
    for o in (first, second, first):
        f = wire(o)
        if order != 'decode':
            h.check('tagged form', spec.same(plain(list(w.proxy.encode_any(o))), f))
            h.check('bare form', spec.same(w.proxy.encode(o), f[1]))
        if order != 'encode':
            h.check('decodes to an equal value of the same type', spec.same(w.proxy.decode_any(f), o))
            if o is not None:
                h.check('decodes the bare form', spec.same(w.proxy.decode(f[0], f[1]), o))


class Below:
    """encode_any and decode_any for the containers one level down are replaced
    by what is to be shown of them (induction over the depth): a container c
    and its form f stand for any pair with encode_any(c) = f, decode_any(f) = c"""

    def __init__(self, h):
        self.h, self.w = h, World(h)
        self.pairs = []
        self.calls = [0, 0]
        p = self.w.proxy
        self.real = p.encode_any, p.decode_any
        p.encode_any, p.decode_any = self.encode, self.decode

    def encode(self, o):
        for c, f in self.pairs:
            if o is c:
                self.calls[0] += 1
                return f[0], f[1]
        return self.real[0](o)

    def decode(self, f):
        for c, g in self.pairs:
            if f[1] is g[1]:
                self.calls[1] += 1
                return c
        return self.real[1](f)

    def element(self, name, kinds=LEAVES + ['list', 'dict']):
        """(value, form)"""
        k = self.h.choose(name + '_is', ['leaf'] + [x for x in kinds if x not in LEAVES])
        if k == 'leaf':
            v = leaf(self.h, name, [x for x in kinds if x in LEAVES])
            return v, wire(v)
        i = len(self.pairs)
        c = [f'#{i}'] if k == 'list' else {f'#{i}': i}
        f = [2, [f'form {i}']] if k == 'list' else [1, {f'form {i}': i}]
        self.pairs.append((c, f))
        return c, f

    def check(self, o, want):
        h, p = self.h, self.w.proxy
        tag, val = p.encode_any(o)
        if self.calls[0] != len(self.pairs):
            h.unsupported('the recursion does not go through encode_any')
        h.check('tagged form', spec.same(plain([tag, val]), want))
        back = p.decode_any(want)
        if self.calls[1] != len(self.pairs):
            h.unsupported('the recursion does not go through decode_any')
        h.check('decodes to an equal value of the same type', spec.same(back, o))
        h.check('round trip', spec.same(p.decode_any([tag, val]), o))


CONTAINERS = ('pyexec.ipc.proxy:ServiceManagerProxy.encode_any pyexec.ipc.proxy:ServiceManagerProxy.decode_any')


@unit('C02', WIRE, frame=CONTAINERS)
def wire_list(h):
    """lists of any length and depth: two arbitrary elements, and the frame rule"""
    b = Below(h)
    n = h.choose('n', [0, 1, 2])
    es = [b.element(f'e{i}', LEAVES + ['list', 'dict'] if i < 1 else ['int', 'str', 'none', 'list']) for i in range(n)]
    b.check([v for v, f in es], [2, [f for v, f in es]])


@unit('C02', WIRE, frame=CONTAINERS)
def wire_dict(h):
    b = Below(h)
    n = h.choose('n', [0, 1, 2])
    o, m = {}, {}
    for i in range(n):
        k = h.str(f'k{i}')
        h.assume(k not in o)
        v, f = b.element(f'e{i}', LEAVES + ['list', 'dict'] if i < 1 else ['int', 'none', 'list'])
        o[k] = v
        m[k] = f
    b.check(o, [1, m])


@unit('C02', WIRE, bounded='lists and maps of 20 and 300 elements, 60 levels')
def wire_large(h):
    a = leaf(h, 'a')
    n = h.choose('n', [3, 20, 300])
    o = h.choose('shape', [lambda: [a] * (n - 1) + [n], lambda: {f'k{i}': i for i in range(n)},
                           lambda: [i for i in range(n)] + [a], lambda: deep(a, n // 5)])()
    roundtrip(h, o)


@unit('C02', WIRE, bounded='all trees of lists and maps of depth at most 2, up to two entries each')
def wire_trees(h):
    depth = 2 if h.symbolic else h.choose('depth', [1, 2, 3, 5])

    def tree(d):
        k = h.choose('node', ['leaf', 'null', 'empty list', 'empty map', 'list', 'map', 'pair'] if d else
                     ['leaf', 'null', 'empty list', 'empty map'])
        if k == 'leaf':
            return 0
        if k == 'null':
            return None
        if k == 'list':
            return [tree(d - 1)]
        if k == 'map':
            return {'': tree(d - 1)}
        if k == 'pair':
            return [tree(d - 1), tree(d - 1)] if d < depth else {'a': tree(d - 1), 'b': tree(d - 1)}
        return [] if k == 'empty list' else {}
    roundtrip(h, tree(depth))


def deep(a, n):
    o = a
    for i in range(n):
        o = [o] if i % 2 else {'k': o, 'i': i}
    return o


@unit('C02', WIRE, bounded='nesting of at most 4 levels, by templates')
def wire_nested(h):
    a, b = leaf(h, 'a'), leaf(h, 'b', ['int', 'str', 'none'])
    k = h.str('k')
    o = h.choose('shape', [
        lambda: [[a], b], lambda: [{k: a}, b], lambda: {k: [a, b]}, lambda: {k: {'x': a, 'y': [b]}},
        lambda: [[[a, []], {}], [b]], lambda: {'m': {k: {'n': [a, {'o': b}]}}}, lambda: [None, [None], {'z': None}, a]])()
    roundtrip(h, o)


@unit('C02', WIRE)
def wire_tuple(h):
    """a tuple is sent as a list"""
    w = World(h)
    a, b = leaf(h, 'a'), leaf(h, 'b', ['int', 'str', 'none'])
    t = (a, [b], (b, a))
    tag, val = w.proxy.encode_any(t)
    h.check('as a list', spec.same(plain([tag, val]), wire([a, [b], [b, a]])))


class Odd:
    pass


@unit('C02', WIRE)
def wire_refused(h):
    """nothing is altered to fit"""
    w = World(h)
    a = leaf(h, 'a')
    bad = h.choose('bad', [{1: 2}, {b'k': 1}, {None: 0}, {True: 1}, {('a',): 1}, 1.5, Odd(), {1, 2}, frozenset(), int,
                           bytearray(b'x'), 1j, Ellipsis])
    o = h.choose('shape', [bad, [bad], {'k': bad}, [a, bad], [bad, a], {'a': a, 'k': [bad]}])
    kind, e = outcome(w.proxy.encode_any, o)
    h.check('refused', kind == 'raise')


@unit('C02', WIRE)
def wire_key_mixed(h):
    w = World(h)
    kind, e = outcome(w.proxy.encode_any, {h.str('k'): 1, h.bytes('kb'): 2})
    h.check('refused', kind == 'raise')


@unit('C02', 'pyexec.ipc.proxy:ServiceManagerProxy.decode')
def wire_bool(h):
    w = World(h)
    b = h.bytes('b')
    ok, v = outcome(w.proxy.decode_any, [5, b])
    if ok == 'ok':
        h.check('a boolean', isinstance(v, bool))
        h.check('only the two forms', Or(And(b == b'\x00', not v), And(b == b'\x01', v)))
    else:
        h.check('a good form is not refused', Not(Or(b == b'\x00', b == b'\x01')))


@unit('C02', WIRE)
def wire_decode_address(h):
    w = World(h)
    b = h.bytes('b', hi=40)
    ok, v = outcome(w.proxy.decode_any, [10, b])
    n = len(b)
    if ok == 'raise' or v is None:
        h.check('a good form is not refused', Not(Or(n == 20, And(n == 21, Or(b[:1] == b'\x00', b[:1] == b'\x01')))))
    else:
        h.check('an address', isinstance(v, Address))
        h.check('the bytes of it', Or(And(n == 20, v.body == b, v.prefix == EOA), b == addr_bytes(v)))


@unit('C02', WIRE)
def wire_tags(h):
    """tags that are not of the protocol are refused"""
    w = World(h)
    t = h.int('tag')
    h.assume(And(t != 0, t != 1, t != 2, t != 3, t != 4, t != 5, t != 10, t != 11))
    ok, v = outcome(w.proxy.decode_any, [t, h.bytes('b', n=1)])
    h.check('refused', ok == 'raise')


@unit('C02', WIRE)
def wire_dict_bytes_keys(h):
    """keys arrive as raw bytes from the connection"""
    w = World(h)
    k = h.str('k')
    a = leaf(h, 'a')
    v = w.proxy.decode_any([1, {spec.UTF8(k): wire(a)}])
    h.check('text key', spec.same(v, {k: a}))


class Packets:
    """stands for msgpack: one packet per dumped object"""

    @staticmethod
    def dump(o, stream):
        stream.write(('packet', o))

    class Unpacker:
        def __init__(self, stream, **k):
            self.stream = stream

        def unpack(self):
            return self.stream.read(4096)[1]


class Sock:
    def __init__(self, *a):
        self.buf = []

    def connect(self, addr):
        pass

    def sendall(self, b):
        self.buf.append(b)

    def recv(self, n):
        if isinstance(self.buf[0], bytes):
            b = b''.join(self.buf)
            self.buf = [b[n:]] if len(b) > n else []
            return b[:n]
        return self.buf.pop(0)

    def close(self):
        self.buf = None


class SockModule:
    AF_UNIX = 1
    SOCK_STREAM = 1
    socket = Sock


@unit('C02', 'pyexec.ipc.client:Client.send pyexec.ipc.client:Client.receive pyexec.ipc.client:Client.write '
             'pyexec.ipc.client:Client.read pyexec.ipc.client:Client._send pyexec.ipc.client:Client._recv')
def wire_framing(h):
    saved = ipc_client.msgpack, ipc_client.socket
    ipc_client.socket = SockModule
    if h.symbolic:
        ipc_client.msgpack = Packets
    try:
        c = ipc_client.Client()
        c.connect('x')
        n = h.choose('messages', [1, 2, 3])
        msgs = []
        for i in range(n):
            m = (h.int(f'm{i}', 0, 100), [h.int(f'i{i}', 0, 2 ** 63), h.bytes(f'b{i}'), None, [h.bytes(f'c{i}')]])
            msgs.append(m)
            c.send(m[0], m[1])
        for i in range(n):
            got = c.receive()
            h.check('message kind', got[0] == msgs[i][0])
            h.check('content, in order', spec.same(got[1], msgs[i][1]))
        h.check('nothing else was written', c.conn.buf == [] or c.conn.buf == [b''])
    finally:
        ipc_client.msgpack, ipc_client.socket = saved


# ---- C03 -------------------------------------------------------------------------

ADDR = ('pyexec.base.address:Address.__init__ pyexec.base.address:Address.__eq__ pyexec.base.address:Address.__ne__ '
        'pyexec.base.address:Address.__hash__ pyexec.base.address:Address.__str__ '
        'pyexec.base.address:Address.from_string pyexec.base.address:Address.from_bytes '
        'pyexec.base.address:Address.to_bytes pyexec.base.address:is_icon_address_valid '
        'pyexec.base.address:split_icon_address pyexec.base.address:AddressPrefix.from_string '
        'pyexec.base.address:AddressPrefix.__str__ pyexec.utils:is_lowercase_hex_string')


@unit('C03', ADDR)
def address_construct(h):
    p = h.choose('prefix', [EOA, CON, 0, 1, None, 'hx', True])
    b = h.bytes('body', hi=64)
    ok, a = outcome(Address, p, b)
    good = And(len(b) == 20, isinstance(p, AddressPrefix))
    if ok == 'ok':
        h.check('20 bytes and a kind', good)
        h.check('kind', a.prefix is p)
        h.check('body', a.body == b)
        h.check('is_contract', a.is_contract == (p == CON))
    else:
        h.check('refused only if ill-formed', Not(good))
    bad = h.choose('bad_body', [None, 'a' * 20, bytearray(20), 5, [0] * 20])
    ok, a = outcome(Address, EOA, bad)
    h.check('body must be bytes', ok == 'raise')


@unit('C03', ADDR)
def address_forms(h):
    a = sym_address(h, 'a')
    text = str(a)
    h.check('text form', text == spec.cat('cx' if a.prefix == CON else 'hx', spec.HEX(a.body)))
    h.check('binary form', a.to_bytes() == spec.cat(b'\x01' if a.prefix == CON else b'\x00', a.body))
    b = Address.from_string(text)
    h.check('text read back: kind', b.prefix is a.prefix)
    h.check('text read back: body', b.body == a.body)
    c = Address.from_bytes(a.to_bytes())
    h.check('bytes read back: kind', c.prefix is a.prefix)
    h.check('bytes read back: body', c.body == a.body)
    d = Address.from_bytes(a.body)
    h.check('bare body: account', d.prefix is EOA)
    h.check('bare body: body', d.body == a.body)
    h.check('equal again', And(b == a, c == a))


@unit('C03', ADDR)
def address_from_text(h):
    """any text"""
    s = h.str('s', hi=60)
    ok, a = outcome(Address.from_string, s)
    if ok == 'ok':
        h.check('an address', isinstance(a, Address))
        h.check('of exactly this text', str(a) == s)
        h.check('body has 20 bytes', len(a.body) == 20)
    else:
        h.check('invalid parameters', a.code == 6)


@unit('C03', ADDR)
def address_from_good_text(h):
    """every text of the right form is accepted"""
    p = h.choose('p', ['hx', 'cx'])
    b = h.bytes('b', n=20)
    a = Address.from_string(spec.cat(p, spec.HEX(b)))
    h.check('kind', a.prefix is (EOA if p == 'hx' else CON))
    h.check('body', a.body == b)


@unit('C03', ADDR)
def address_from_odd_text(h):
    """near misses"""
    b = h.bytes('b', n=20)
    x = spec.HEX(b)
    s = h.choose('form', [
        lambda: spec.cat('HX', x), lambda: spec.cat('Cx', x), lambda: spec.cat('cX', x), lambda: spec.cat('0x', x),
        lambda: spec.cat('ax', x), lambda: spec.cat('c', x, 'x'), lambda: spec.cat('hx', x, '0'),
        lambda: spec.cat('hx', x[1:]), lambda: spec.cat('hx', x[1:], '\n'), lambda: spec.cat('hx', x[1:], 'g'),
        lambda: spec.cat('hx', x[1:], 'A'), lambda: spec.cat('hx', x[2:], ' 0'), lambda: spec.cat('cx', ' ', x[1:]),
        lambda: spec.cat('cx', x[1:], ' '), lambda: spec.cat(' hx', x[1:]), lambda: spec.cat('hx', x, '\n'),
        lambda: spec.cat('hx', '-', x[1:]), lambda: spec.cat('hx', x[:20], '_', x[21:]), lambda: x,
        lambda: spec.cat('hx', x[:20], '\u0661', x[21:]), lambda: spec.cat('hx', x[2:], '\uff11\uff12'),
        lambda: spec.cat('hx', x[2:]), lambda: '', lambda: 'hx', lambda: None, lambda: 5, lambda: b])()
    ok, a = outcome(Address.from_string, s)
    h.check('refused', ok == 'raise')


@unit('C03', ADDR)
def address_from_binary(h):
    """any byte string"""
    b = h.bytes('b')
    ok, a = outcome(Address.from_bytes, b)
    n = len(b)
    good = Or(n == 20, And(n == 21, Or(b[:1] == b'\x00', b[:1] == b'\x01')))
    if ok == 'raise' or a is None:
        h.check('refused only if ill-formed', Not(good))
        return
    h.check('accepted only if well-formed', good)
    h.check('the same bytes', Or(And(n == 20, a.prefix is EOA, a.body == b), addr_bytes(a) == b))
    for bad in (None, 'x' * 20, bytearray(21), 7, [0] * 20):
        ok, a = outcome(Address.from_bytes, bad)
        h.check('not bytes: no address', ok == 'raise' or a is None)


@unit('C03', ADDR)
def address_equality(h):
    a, b = sym_address(h, 'a'), sym_address(h, 'b')
    if h.choose('alias', [False, True]):
        b = Address(b.prefix, a.body)
    equal = And(a.prefix is b.prefix, a.body == b.body)
    h.check('equal iff same kind and body', Iff(a == b, equal))
    h.check('different otherwise', Iff(a != b, Not(equal)))
    h.check('equal addresses hash alike', Implies(equal, hash(a) == hash(b)))
    if not h.symbolic:
        h.check('as keys', Iff(a in {b: 1}, equal))
    for o in (None, 0, 'hx', b'', [a], str(a), a.to_bytes()):
        h.check('never equal to something else', And(Not(a == o), a != o))


@unit('C03', 'pyexec.base.address:Address.from_data')
def address_derived(h):
    """addresses made from hashes"""
    p = h.choose('p', [EOA, CON])
    d = h.bytes('d')
    a = Address.from_data(p, d)
    h.check('last 20 bytes of the hash', And(a.prefix is p, a.body == spec.SHA3(d)[-20:]))
