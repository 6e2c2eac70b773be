"""C09: hash, key and JSON helpers."""
import json

from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import World, Prog, Message, Address, EOA, CON, USER, outcome, sym_address
from vc.outcome import one_result
from pyexec.iconscore import icon_score_base2 as api
from pyexec.base import exception as X

OUT_OF_STEP = 11
B2 = 'pyexec.iconscore.icon_score_base2:'
COMMON = (B2 + '_get_api_call_step_cost pyexec.iconscore.icon_score_step:IconScoreStepCounter.consume_step '
          'pyexec.iconscore.icon_score_step:IconScoreStepCounter.get_step_cost ')
COMPACT = 256


def helper(h, f, args, want, steps, schema=None, revision=0, kw=None):
    """run a helper in a contract; `want` is ('ok', value) or ('raise',) and
    `steps` the charge"""
    w = World(h)
    c = h.int('apiCall', 0, None if h.symbolic else 10 ** 6)
    limit = h.int('limit', 0, None if h.symbolic else 10 ** 8)
    costs = {'apiCall': c}
    if h.choose('schema', [0, 1]):
        costs['schema'] = 1
    charge = steps(c)
    box = []
    caught = h.choose('caught', [False, True])

    def run(s):
        o = outcome(f, *args, **(kw or {}))
        box.append(o)
        if o[0] == 'raise' and not caught:
            raise o[1]
        return 1
    Prog.run = run
    r = w.invoke('run', limit=limit, costs=costs, info={'Revision': revision})
    if not one_result(h, w, r):
        return None
    h.check('called once', len(box) == 1)
    if len(box) != 1:
        return None
    if charge > limit:
        h.check('no result is delivered', box[0][0] == 'raise')
        h.check('everything is used', r[1] == limit)
        h.check('out of step', isinstance(box[0][1], X.IconServiceBaseException))
        if isinstance(box[0][1], X.IconServiceBaseException):
            h.check('code', box[0][1].code == X.ExceptionCode.OUT_OF_STEP)
        h.check('fails unless caught', (r[0] == 0) == caught)
        return None
    h.check('charge', r[1] == charge)
    h.check('outcome', box[0][0] == want[0])
    h.check('status', (r[0] == 0) == (caught or want[0] == 'ok'))
    if box[0][0] == 'ok' and want[0] == 'ok':
        if len(want) > 1:
            h.check('value', spec.same(box[0][1], want[1]))
        return box[0][1]
    return None


NOT_BYTES = ['abc', 5, None, bytearray(b'ab'), [1, 2], (), True]


@unit('C09', B2 + 'sha3_256 ' + B2 + '_hash ' + COMMON)
def hash_sha3(h):
    b = h.bytes('data')
    chunks = (len(b) + 31) // 32
    helper(h, api.sha3_256, [b], ('ok', spec.SHA3(b)), lambda c: c + c * chunks // 10)


@unit('C09', B2 + 'sha_256 ' + B2 + '_hash ' + COMMON)
def hash_sha2(h):
    b = h.bytes('data')
    chunks = (len(b) + 31) // 32
    helper(h, api.sha_256, [b], ('ok', spec.SHA2(b)), lambda c: c + c * chunks // 10)


@unit('C09', B2 + '_hash')
def hash_known(h):
    """fixed inputs against published digests"""
    f, d, x = h.choose('vector', [
        (api.sha3_256, b'', 'a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a'),
        (api.sha3_256, b'abc', '3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532'),
        (api.sha_256, b'', 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'),
        (api.sha_256, b'abc', 'ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad')])
    n = (len(d) + 31) // 32
    helper(h, f, [d], ('ok', bytes.fromhex(x)), lambda c: c + c * n // 10)


@unit('C09', B2 + '_hash')
def hash_not_bytes(h):
    f = h.choose('f', [api.sha3_256, api.sha_256])
    helper(h, f, [h.choose('bad', NOT_BYTES)], ('raise',), lambda c: 0)


def key_bytes(h, n):
    b = h.bytes('key', n=n)
    if not h.symbolic:
        k = h.int('secret', 1, 2 ** 200)
        how = h.choose('make', ['valid', 'valid', 'raw', 'flip'])
        if how != 'raw':
            v = spec.ec_format(spec.ec_mul(k, spec.G256), n == 33)
            if n == 65 and h.choose('hybrid', [False, False, True]):
                v = bytes([6 + v[-1] % 2]) + v[1:]
            b = v if how == 'valid' else bytes([b[0] % 8]) + v[1:]
        else:
            b = bytes([b[0] % 8]) + b[1:]
    return b


@unit('C09', B2 + 'create_address_with_key ' + B2 + '_create_address_with_key ' + B2 + '_convert_key ' + COMMON)
def address_compressed(h):
    """33 bytes"""
    b = key_bytes(h, 33)
    k = spec.KEYFORM(b, False)
    want = None
    if k is not None:
        want = Address(EOA, spec.SHA3(k[1:])[12:])
    helper(h, api.create_address_with_key, [b], ('ok', want), lambda c: c * 15000 // 1000)


@unit('C09', B2 + 'create_address_with_key ' + B2 + '_create_address_with_key ' + COMMON)
def address_uncompressed(h):
    """65 bytes; the marker byte decides"""
    b = key_bytes(h, 65)
    want = None
    if b[0] == 4:
        want = Address(EOA, spec.SHA3(b[1:])[12:])
    helper(h, api.create_address_with_key, [b], ('ok', want), lambda c: c * 1500 // 1000)


@unit('C09', B2 + 'create_address_with_key ' + COMMON)
def address_other(h):
    """anything else is no key, for free"""
    if h.choose('bytes', [True, False]):
        b = h.bytes('b')
        h.assume(And(len(b) != 33, len(b) != 65))
    else:
        b = h.choose('bad', NOT_BYTES + ['a' * 33, bytearray(33), [0] * 65])
    helper(h, api.create_address_with_key, [b], ('ok', None), lambda c: 0)


@unit('C09', B2 + 'recover_key ' + B2 + '_recover_key ' + COMMON)
def key_recover(h):
    m, s = h.bytes('msg', lo=0, hi=40), h.bytes('sig', lo=0, hi=70)
    if not h.symbolic:
        k, n = h.int('secret', 1, 2 ** 200), h.int('nonce', 1, 2 ** 200)
        how = h.choose('make', ['valid', 'valid', 'tamper', 'raw'])
        if how != 'raw':
            m = (m + bytes(32))[:32]
            v = spec.SIGN(k, n, m)
            s = v if how == 'valid' else v[:64] + bytes([h.int('v', 0, 255) % 8])
        elif h.bool('sized'):
            m, s = (m + bytes(32))[:32], (s + bytes(65))[:65]
    form = h.choose('form', [None, True, False, 0, 1])
    compressed = True if form is None else form
    args = [m, s] if form is None else [m, s, form]
    helper(h, api.recover_key, args, ('ok', spec.RECOVER(m, s, bool(compressed))), lambda c: c * 70000 // 1000)


@unit('C09', B2 + 'recover_key ' + B2 + '_recover_key ' + COMMON)
def key_recover_odd(h):
    """arguments of other types give nothing, and are paid for"""
    m = h.choose('msg', [bytes(32), 'a' * 32, bytearray(32), None, 5])
    s = h.choose('sig', [bytes(64) + b'\x09', 'a' * 65, bytearray(65), None, 5])
    helper(h, api.recover_key, [m, s], ('ok', None), lambda c: c * 70000 // 1000)


def json_value(h):
    return h.choose('shape', [
        lambda: None, lambda: h.bool('b'), lambda: h.int('i'), lambda: h.str('s', hi=30),
        lambda: [], lambda: {}, lambda: [h.int('i'), h.str('s', hi=30), None],
        lambda: {'k': h.str('s', hi=30), 'l': [h.int('i'), {'m': h.bool('b')}]},
        lambda: (h.int('i'), h.int('j')), lambda: {h.int('i'): 1}, lambda: 'fixed "text" \u1234\n', lambda: 1.5,
        lambda: {'a': {'b': [1, [2, [h.str('s', hi=30)]]]}}])()


@unit('C09', B2 + 'json_dumps ' + COMMON, cost=3)
def json_write(h):
    rev = h.int('revision', 0)
    o = json_value(h)
    if rev & COMPACT:
        t = json.dumps(o, separators=(',', ':'))
        n = len(spec.UTF8(t))
        helper(h, api.json_dumps, [o], ('ok', t), lambda c: c * 5 + c * 5 * n // 100, revision=rev)
    else:
        helper(h, api.json_dumps, [o], ('ok', json.dumps(o)), lambda c: 0, revision=rev)


@unit('C09', B2 + 'json_dumps')
def json_write_odd(h):
    """values JSON cannot express are refused"""
    o = h.choose('bad', [lambda: h.bytes('b'), lambda: sym_address(h, 'a'), lambda: {1, 2}, lambda: [h.bytes('b')],
                         lambda: {'k': sym_address(h, 'a')}, lambda: {(1, 2): 3}, lambda: object()])()
    rev = h.choose('revision', [0, 255, 256, 511])
    helper(h, api.json_dumps, [o], ('raise',), lambda c: 0, revision=rev)


@unit('C09', B2 + 'json_loads ' + COMMON, cost=3)
def json_read(h):
    rev = h.int('revision', 0)
    t = h.str('text', hi=40)
    if not h.symbolic:
        t = h.choose('make', [lambda: t, lambda: json.dumps(t), lambda: str(h.int('i')), lambda: json.dumps([t, {'k': t}]),
                              lambda: '[1, 2', lambda: json.dumps({'a': [1, None, True, 1.5, t]}), lambda: ' 5 ',
                              lambda: '{"a":"\u1234"}', lambda: 'NaN'])()
        if t == 'NaN':
            return
    w = outcome(json.loads, t)
    want = ('ok', w[1]) if w[0] == 'ok' else ('raise',)
    n = len(spec.UTF8(t))
    if rev & COMPACT:
        helper(h, api.json_loads, [t], want, lambda c: c * 4 + c * 4 * n // 100, revision=rev)
    else:
        helper(h, api.json_loads, [t], want, lambda c: 0, revision=rev)


@unit('C09', B2 + 'json_loads')
def json_read_odd(h):
    """what is not text gives nothing, for free"""
    o = h.choose('bad', [lambda: h.bytes('b'), lambda: h.int('i'), lambda: None, lambda: ['1'], lambda: True,
                         lambda: bytearray(b'1'), lambda: b'5'])()
    helper(h, api.json_loads, [o], ('ok', None), lambda c: 0, revision=h.choose('revision', [0, 256]))


@unit('C09', B2 + 'json_dumps ' + B2 + 'json_loads')
def json_examples(h):
    o, t = h.choose('example', [({'a': 1, 'b': [True, None, 'x']}, '{"a":1,"b":[true,null,"x"]}'), ([], '[]'), ('"', '"\\""'),
                                (10 ** 30, '1' + '0' * 30), ('\u1234', '"\\u1234"'), ({}, '{}'), (-1, '-1')])
    if h.choose('write', [True, False]):
        helper(h, api.json_dumps, [o], ('ok', t), lambda c: c * 5 + c * 5 * len(t) // 100, revision=COMPACT)
    else:
        helper(h, api.json_loads, [t], ('ok', o), lambda c: c * 4 + c * 4 * len(t) // 100, revision=COMPACT)


@unit('C09', B2 + '_hash ' + B2 + 'recover_key ' + B2 + 'create_address_with_key ' + COMMON, cost=2)
def helper_twice(h):
    """charges add up; the second call does not run when the first used up
    the limit"""
    w = World(h)
    c, limit = h.int('apiCall', 0, None if h.symbolic else 10 ** 5), h.int('limit', 0, None if h.symbolic else 10 ** 6)
    d = h.bytes('data', hi=None if h.symbolic else 200)
    n = (len(d) + 31) // 32
    calls = [(lambda: api.sha3_256(d), c + c * n // 10), (lambda: api.sha_256(d), c + c * n // 10),
             (lambda: api.recover_key(b'', b''), c * 70),
             (lambda: api.create_address_with_key(b'\x04' + bytes(64)), c * 1500 // 1000),
             (lambda: api.create_address_with_key(bytes(33)), c * 15)]
    f, x = h.choose('first', calls)
    g, y = h.choose('second', calls)
    n = []

    def run(s):
        n.append(1)
        f()
        n.append(2)
        g()
        n.append(3)
    Prog.run = run
    r = w.invoke('run', limit=limit, costs={'apiCall': c})
    if not one_result(h, w, r):
        return
    if x + y <= limit:
        h.check('both', And(r[0] == 0, r[1] == x + y, n == [1, 2, 3]))
    elif x <= limit:
        h.check('one', And(r[0] != 0, r[1] == limit, n == [1, 2]))
    else:
        h.check('none', And(r[0] != 0, r[1] == limit, n == [1]))
