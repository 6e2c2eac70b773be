"""Samples of contracts and histories that are larger than those of the other
modules: many methods, events, parameters, packages, and long runs of the same
operation on one executor."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, Prog, Score, Message, Address, EOA, CON, SELF, USER, OTHER, CODE, outcome, wire, addr_bytes,
                    eventlog, external, payable, IconScoreBase, VarDB, ENDS, end)
from pyexec.iconscore.icon_container_db import ArrayDB, DictDB
from vc.outcome import one_result
from vc.events import enc, size
from vc.declare import source, deploy, interface_of
from vc.interface import expect, fn, FUNCTION, EVENT, EXTERNAL, READONLY, PAYABLE, STD, RUNS, agree
from vc import calls, context, dispatch, events, helpers, params, store, outcome as oc, interface as itf
from pyexec.base import exception as X

TYPES = ['int', 'str', 'bytes', 'bool', 'Address']
CODES = {'int': 1, 'str': 2, 'bytes': 3, 'bool': 4, 'Address': 5}
SEEN = []
KINDS = ['plain', 'external', 'readonly', 'payable', 'payable2', 'onlypay']
DECOS = {'plain': '', 'external': '    @external\n', 'readonly': '    @external(readonly=True)\n',
         'payable': '    @payable\n    @external\n', 'payable2': '    @external\n    @payable\n',
         'onlypay': '    @payable\n'}
FLAGS = {'external': EXTERNAL, 'readonly': EXTERNAL | READONLY, 'payable': EXTERNAL | PAYABLE,
         'payable2': EXTERNAL | PAYABLE}


def kind_of(i):
    return KINDS[(i * 5 + i // 6) % 6]


def class_of(body, base='Score'):
    ns = {'IconScoreBase': IconScoreBase, 'Score': Score, 'external': external, 'payable': payable,
          'eventlog': eventlog, 'Address': Address, 'SEEN': SEEN, '__name__': 'score_module'}
    spec.define(f'class Main({base}):\n    def __init__(self, db):\n        super().__init__(db)\n' + body, ns)
    return ns['Main']


def methods(n):
    s = ''
    for i in range(n):
        s += DECOS[kind_of(i)] + f'    def m{i}(self, a: int):\n        SEEN.append(({i}, a))\n        return a\n'
    return s


@unit('C11', dispatch.DI, bounded='48 methods, called one after the other')
def dispatch_wide(h):
    """many methods in one class, many invocations of one executor"""
    w = World(h, class_of(methods(48)))
    start = h.choose('start', list(range(48)))
    stride = h.choose('stride', [0, 1, 6, 7])
    value = h.int('value', 0)
    a = h.int('a')
    for j in range(12):
        i = (start + j * stride) % 48
        k = kind_of(i)
        SEEN.clear()
        coins = value if j % 3 == 0 else 0
        r = w.invoke(f'm{i}', params=[a], value=coins, costs={})
        if r is None:
            h.check('one result', False)
            return
        if k in ('plain', 'onlypay'):
            h.check('unknown method', And(r[0] == 3, len(SEEN) == 0))
        elif coins > 0 and not k.startswith('pay'):
            h.check('not payable', And(r[0] == 4, len(SEEN) == 0))
        else:
            h.check('ran once', And(len(SEEN) == 1, SEEN[0][0] == i, SEEN[0][1] == a) if SEEN else False)
            h.check('its value', And(r[0] == 0, r[2] == a))


@unit('C17', itf.API + itf.EVT, bounded='up to 48 methods, 30 events and 20 parameters')
def interface_wide(h):
    """many methods and events, many parameters"""
    n = h.choose('methods', [10, 48])
    ne = h.choose('events', [1, 30])
    np = h.choose('parameters', [5, 9, 17, 20])
    opt = h.choose('with default', [0, 1, 4, 5])
    body, want = '', list(STD)
    for i in range(n):
        k = kind_of(i)
        body += DECOS[k] + f'    def m{i}(self, a: int) -> int:\n        return a\n'
        if k in FLAGS:
            want.append(fn(f'm{i}', FLAGS[k], [['a', 1, None]], [1] if k == 'readonly' else []))
    for i in range(ne):
        k = i % 4
        ps = [TYPES[(i + j) % 5] for j in range(max(k, 1 + i % 7))]
        body += f'    @eventlog(indexed={k})\n    def E{i}(self' + ''.join(f', p{j}: {t}' for j, t in enumerate(ps)) + \
            '):\n        pass\n'
        want.append([EVENT, f'E{i}', 0, k, [[f'p{j}', CODES[t], None] for j, t in enumerate(ps)], []])
    ps = [TYPES[j % 5] for j in range(np)]
    d = {'int': 300, 'str': 'd', 'bytes': b'', 'bool': True, 'Address': None}
    body += '    @external\n    def big(self' + ''.join(
        f', z{np - j}: {t}' + (f' = {d[t]!r}' if j >= np - opt else '') for j, t in enumerate(ps)) + '):\n        pass\n'
    want.append(fn('big', EXTERNAL, [[f'z{np - j}', CODES[t], wire(d[t])[1] if j >= np - opt else None]
                                     for j, t in enumerate(ps)], mandatory=np - opt))
    w = World(h)
    deploy(w, source(body, run=RUNS))
    for again in range(2):
        expect(h, itf.published(h, w), want)


def text_of(t, v):
    if v is None:
        return None
    if t == 'int':
        return str(v)
    if t == 'bool':
        return '0x1' if v else '0x0'
    if t == 'str':
        return v
    if t == 'bytes':
        return spec.cat('0x', spec.HEX(v))
    return spec.cat('cx' if v.prefix == CON else 'hx', spec.HEX(v.body))


def fixed(t, j):
    return {'int': j * 7919 - 50000, 'str': 't' * (j % 5) + str(j), 'bytes': bytes([j]) * j, 'bool': j % 2 == 0,
            'Address': Address([EOA, CON][j % 2], bytes([j]) * 20)}[t]


def some(h, t, name):
    if t == 'int':
        return h.int(name)
    if t == 'str':
        return h.str(name)
    if t == 'bytes':
        return h.bytes(name)
    if t == 'bool':
        return True if h.bool(name) else False
    return Address(CON, h.bytes(name, n=20))


@unit('C16 C11', params.ALL, bounded='up to 33 parameters')
def param_wide(h):
    """many parameters"""
    n = h.choose('parameters', [5, 8, 16, 33])
    rot = h.choose('types', [0, 1, 2, 3, 4])
    ts = [TYPES[(rot + j) % 5] for j in range(n)]
    opt = h.choose('with default', [0, 1, n // 2])
    names = [f'{"qwertyuiop"[j % 10]}{j}' for j in range(n)]
    body = '    @external\n    def big(self' + ''.join(
        f', {p}: {t}' + (' = None' if j >= n - opt else '') for j, (p, t) in enumerate(zip(names, ts))) + \
        '):\n        SEEN.append([' + ', '.join(names) + '])\n        return 5\n'
    w = World(h, class_of(body))
    vals = [some(h, t, f'v{j}') if j in (0, n // 2, n - 1) else fixed(t, j) for j, t in enumerate(ts)]
    how = h.choose('how', ['named', 'reversed', 'positional', 'absent', 'one bad'])
    SEEN.clear()
    if how == 'positional':
        r = w.invoke('big', params=vals, costs={})
    else:
        order = list(range(n))
        if how == 'reversed':
            order.reverse()
        given = {}
        for j in order:
            if how == 'absent' and j >= n - opt and j % 2 == 0:
                vals[j] = None
                continue
            given[names[j]] = text_of(ts[j], vals[j])
        if how == 'one bad':
            j = max([k for k in range(n) if ts[k] == 'int'])
            given[names[j]] = '0xx'
        r = w.invoke('big', params=given, costs={})
    if not one_result(h, w, r):
        return
    if how == 'one bad':
        h.check('refused', And(r[0] != 0, len(SEEN) == 0))
        return
    h.check('ran once', And(r[0] == 0, len(SEEN) == 1))
    if len(SEEN) == 1:
        h.check('each its own', spec.same(SEEN[0], vals))


@unit('C14', events.EV, bounded='up to 33 parameters')
def event_wide(h):
    """many parameters, defaults for some"""
    n = h.choose('parameters', [6, 17, 33])
    idx = h.choose('indexed', [0, 1, 3])
    rot = h.choose('types', [0, 3])
    ts = [TYPES[(rot + j) % 5] for j in range(n)]
    body = f'    @eventlog(indexed={idx})\n    def Wide(self' + ''.join(f', p{j}: {t} = None' for j, t in enumerate(ts)) + \
        '):\n        pass\n'
    vals = [some(h, t, f'v{j}') if j in (0, 3, n - 1) else fixed(t, j) for j, t in enumerate(ts)]
    given = h.choose('given', [n, n - 1, 4])
    named = h.choose('by name', [0, 1, given])
    w = World(h, class_of(body))
    sig = 'Wide(' + ','.join(ts) + ')'
    box = []
    unit_, limit = h.int('unit', 0, 1000), h.int('limit', 0)
    kw = {f'p{j}': vals[j] for j in range(given - named, given)}

    def run(s):
        box.append(outcome(s.Wide, *vals[:given - named], **kw))
    Prog.run = run
    r = w.invoke('run', limit=limit, costs={'eventLog': unit_})
    if not one_result(h, w, r):
        return
    want = vals[:given] + [None] * (n - given)
    cost = unit_ * size(sig, want)
    ev = w.node.sent(Message.EVENT)
    if box[0][0] == 'raise':
        h.check('does not fit', And(cost > limit, len(ev) == 0, r[1] == limit))
        return
    h.check('fits', And(cost <= limit, r[1] == cost, len(ev) == 1))
    if len(ev) != 1:
        return
    h.check('signature', ev[0][0][0] == spec.UTF8(sig))
    h.check('numbers', And(len(ev[0][0]) == idx + 1, len(ev[0][1]) == n - idx))
    got = list(ev[0][0][1:]) + list(ev[0][1])
    if len(got) == n:
        for j in range(n):
            h.check('value', spec.same(got[j], enc(want[j])))


class Emitter(Score):
    @eventlog(indexed=1)
    def A(self, a: int, b: str = 'd'):
        pass

    @eventlog
    def B(self, a: bytes):
        pass

    @eventlog(indexed=2)
    def C(self, a: int, b: Address):
        pass


@unit('C14', events.EV, bounded='24 events in a row')
def event_many(h):
    """a long run of events, equal ones among them, some refused"""
    w = World(h, Emitter)
    a, t = h.int('a'), h.str('t')
    bad = h.choose('refused', [None, 0, 5, 11, 23])
    same_ = h.choose('equal', [False, True])
    unit_ = h.int('unit', 0, 1000)
    want, cost = [], 0
    box = []

    def call(s, j):
        x = a if same_ else a + j
        if j == bad:
            return outcome(s.C, 'x', USER)
        if j % 3 == 0:
            return outcome(s.A, x, t)
        if j % 3 == 1:
            return outcome(s.B, b'bb' * (1 if same_ else j))
        return outcome(s.C, x, SELF)

    def run(s):
        for j in range(24):
            box.append(call(s, j)[0])
        return 3
    Prog.run = run
    limit = h.int('limit', 0)
    r = w.invoke('run', limit=limit, costs={'eventLog': unit_})
    for j in range(24):
        if j == bad:
            continue
        x = a if same_ else a + j
        if j % 3 == 0:
            e = ('A(int,str)', [x], [t])
        elif j % 3 == 1:
            e = ('B(bytes)', [], [b'bb' * (1 if same_ else j)])
        else:
            e = ('C(int,Address)', [x, SELF], [])
        want.append(e)
        cost = cost + unit_ * size(e[0], e[1] + e[2])
    if not one_result(h, w, r):
        return
    if r[0] == 10 or 'raise' in [box[j] for j in range(24) if j != bad]:
        h.check('does not fit', And(cost > limit, r[1] == limit))
        return
    h.check('each is accepted', [j for j in range(24) if box[j] != 'ok'] == ([] if bad is None else [bad]))
    ev = w.node.sent(Message.EVENT)
    h.check('each is sent once', len(ev) == len(want))
    if len(ev) == len(want):
        for got, e in zip(ev, want):
            h.check('in order', spec.same([list(got[0]), list(got[1])],
                                          [[spec.UTF8(e[0])] + [enc(v) for v in e[1]], [enc(v) for v in e[2]]]))
    h.check('each is paid', r[1] == cost)


OUT = ['value', 'revert', 'system', 'unknown', 'coins', 'no steps', 'no package', 'late']


@unit('C12', oc.INV,
      bounded='24 invocations of one executor')
def invoke_many(h):
    """a long run of invocations with outcomes of every kind"""
    w = World(h)
    first = h.choose('first', list(range(len(OUT))))
    stride = h.choose('stride', [0, 1, 3, 5])
    v, limit = h.int('v'), h.int('limit', 0, 10 ** 9)
    how = []

    def run(s):
        k = how[-1]
        if k == 'value':
            return v
        if k == 'revert':
            s.revert_with()
        if k == 'system':
            raise ValueError('m')
        if k == 'no steps':
            VarDB('x', s.db, int).set(1)
        if k == 'late':
            # its reply is read when the pending writes are settled
            VarDB('x', s.db, int).set(1)
            VarDB('x', s.db, int).remove()
    w.classes[CODE] = Reverting
    Prog.run = run
    for j in range(24):
        k = OUT[(first + j * stride) % len(OUT)]
        how.append(k)
        kw = {'costs': {}, 'limit': limit}
        if k == 'no steps':
            kw['costs'] = {'set': 10 ** 12, 'replace': 10 ** 12}
        if k == 'late':
            kw['costs'] = {'delete': 10 ** 12}
        if k == 'unknown':
            r = w.invoke('hidden', **kw)
        elif k == 'coins':
            r = w.invoke('run', value=1, **kw)
        elif k == 'no package':
            r = w.invoke('run', code='none', **kw)
        else:
            r = w.invoke('run', **kw)
        if r is None:
            h.check('one result', False)
            return
        h.check('its status', r[0] == {'value': 0, 'revert': 32 + 9, 'system': 1, 'unknown': 3, 'coins': 4,
                                       'no steps': 10, 'no package': 2, 'late': 10}[k])
        h.check('its steps', r[1] == (limit if k in ('no steps', 'late') else 0))
        if k == 'value':
            h.check('its value', r[2] == v)
        if k == 'revert':
            h.check('its message', r[2] == 'rm')
    h.check('nothing is left unread', len(w.node.replies) == 0)
    h.check('ready', w.node.busy == 0)


class Reverting(Score):
    def revert_with(self):
        from iconservice import revert
        revert('rm', 9)


@unit('C20', 'pyexec.iconscore.icon_score_base:IconScoreBase.set_fee_sharing_proportion '
             'pyexec.iconscore.icon_score_base:IconScoreBase.get_fee_sharing_proportion',
      bounded='40 settings and queries in a row')
def fee_many(h):
    """many settings in an invocation, many invocations"""
    w = World(h)
    a, b = h.int('a'), h.int('b', 0, 100)
    n = h.choose('settings', [1, 7, 40])
    zero = h.choose('end with zero', [False, True])
    seen = []

    def run(s):
        now = 0
        for j in range(n):
            x = [b, a, j, 101 + j, -1 - j][j % 5]
            o = outcome(s.set_fee_sharing_proportion, x)
            ok = And(0 <= x, x <= 100)
            if ok:
                now = x
            seen.append((o[0] == 'ok', ok, s.get_fee_sharing_proportion(), now))
        if zero:
            s.set_fee_sharing_proportion(0)
            now = 0
        seen.append((True, True, s.get_fee_sharing_proportion(), now))
    Prog.run = run
    for again in range(3):
        seen.clear()
        before = len(w.node.sent(Message.SETFEEPCT))
        r = w.invoke('run', costs={})
        if r is None:
            h.check('one result', False)
            return
        h.check('success', r[0] == 0)
        for o, ok, got, now in seen:
            h.check('accepted or refused', Iff(o, ok))
            h.check('reads the last', got == now)
        fee = w.node.sent(Message.SETFEEPCT)[before:]
        now = seen[-1][3]
        if now == 0:
            h.check('not reported', len(fee) == 0)
        else:
            h.check('reported once', And(len(fee) == 1, fee[0] == now if fee else False))


@unit('C21 C22', 'pyexec.iconscore.icon_score_mapper:IconScoreMapper.get_icon_score '
                 'pyexec.iconscore.icon_score_mapper:IconScoreMapper._load_score',
      bounded='40 packages, 40 addresses')
def load_many(h):
    """many packages used in turn at many addresses"""
    w = World(h)
    names = [f'/nonexistent/s{i}' for i in range(40)]

    def make(i):
        return class_of(f'    @external\n    def where(self):\n        SEEN.append(self)\n'
                        f'        return [{i}, self.address]\n')
    for i, n in enumerate(names):
        w.classes[n] = make(i)
    stride = h.choose('stride', [1, 7, 13])
    back = h.choose('then', ['again', 'backwards', 'first only'])
    body = h.bytes('address', n=20)
    SEEN.clear()
    order = [i * stride % 40 for i in range(40)]
    order += {'again': order, 'backwards': order[::-1], 'first only': [0] * 5}[back]
    for j, i in enumerate(order):
        to = Address(CON, body if j % 3 == 0 else bytes([j]) * 20)
        n = len(SEEN)
        r = w.invoke('where', code=names[i], to=to, costs={})
        if r is None:
            h.check('one result', False)
            return
        h.check('its code at its address', And(r[0] == 0, spec.same(r[2], [i, to])))
        h.check('a fresh object', And(len(SEEN) == n + 1, all(SEEN[-1] is not m for m in SEEN[:n])))
    h.check('each loaded once', sorted(w.loads) == sorted(names))


@unit('C09', helpers.COMMON + helpers.B2 + '_hash', bounded='up to 40 hashes in a row')
def hash_many(h):
    """a run of hashes, each right and each paid"""
    w = World(h)
    n = h.choose('number', [3, 12, 40])
    v = b'v' * h.choose('size', [0, 1, 31, 32, 33, 64, 65, 300])
    price = h.int('price', 0, 10 ** 6)
    limit = h.int('limit', 0)
    box = []

    def run(s):
        for j in range(n):
            f = [helpers.api.sha3_256, helpers.api.sha_256][j % 2]
            box.append(outcome(f, v if j % 3 else b'c' * (j * 13)))
        return 1
    Prog.run = run
    r = w.invoke('run', limit=limit, costs={'apiCall': price})
    if not one_result(h, w, r):
        return
    total = 0
    for j in range(n):
        d = v if j % 3 else b'c' * (j * 13)
        c = price + price * ((len(d) + 31) // 32) // 10
        if box[j][0] == 'ok':
            total = total + c
            h.check('fits', total <= limit)
            h.check('value', box[j][1] == [spec.SHA3, spec.SHA2][j % 2](d))
        else:
            h.check('does not fit', total + c > limit)
            total = limit
    h.check('paid', r[1] == total)


@unit('C22', context.CX, bounded='16 invocations of one executor')
def context_many(h):
    """a long run of invocations of one and of many contracts"""
    w = World(h)
    first = h.choose('first', list(range(len(ENDS))))
    stride = h.choose('stride', [0, 1, 5])
    frm = h.bytes('sender', n=20)
    nonce, value = h.int('nonce'), h.int('value', 0)
    to = h.bytes('to', n=20)
    facts, seen = [], []
    ends = []

    def run(s):
        seen.append(context.view(s))
        return end(w, s, ends[-1])
    Prog.run = run
    for j in range(16):
        f = context.Known(j)
        if j % 4 == 1:
            # only some of it changes
            f = context.Known(j - 1)
            f.frm, f.nonce, f.value = Address(EOA, frm), nonce, value
        if j % 4 == 2:
            f.to = Address(CON, to)
        if j % 8 == 7:
            f.frm, f.nonce = None, None
        ends.append(ENDS[(first + j * stride) % len(ENDS)])
        seen.clear()
        w.deliver((Message.INVOKE, f.message(w)))
        h.check('a result for each', len(w.node.sent(Message.RESULT)) == j + 1)
        h.check('ran once', len(seen) == 1)
        if len(seen) == 1:
            f.check(h, seen[0])
        # what an ill-behaved node left over
        w.node.replies.clear()


STEPS = [0, 1, 7, 0, 130, 2, 2, 40000, 1, 0, 5, 3]


@unit('C13', calls.CALL, bounded='12 calls of an invocation')
def call_many(h):
    """a long run of calls, some of which fail"""
    w = World(h)
    limit, x = h.int('limit', 0), h.int('steps', 0)
    a = h.int('argument')
    first = h.choose('first', list(range(5)))
    at = h.choose('at', [0, 4, 11])
    got, box = [], []
    codes = [[0, 0, 41, 0, 1][(first + j) % 5] for j in range(12)]
    steps = [x if j == at else STEPS[j] for j in range(12)]

    def on_call(node, data):
        j = len(got)
        got.append(data)
        node.replies.append((Message.RESULT, [codes[j], spec.I2B(steps[j]), wire(a + j if codes[j] == 0 else f'e{j}')]))
    w.node.on_call = on_call

    def run(s):
        for j in range(12):
            k = j % 3
            if k == 0:
                box.append(outcome(s.call, OTHER, f'm{j}', {'x': a, 'y': j}, j))
            elif k == 1:
                box.append(outcome(s.icx.transfer, USER, a))
            else:
                box.append(outcome(s.icx.send, OTHER, j))
        return 1
    Prog.run = run
    r = w.invoke('run', limit=limit, costs={})
    if not one_result(h, w, r):
        return
    left = limit
    h.check('each is sent once', len(got) == 12)
    for j in range(min(12, len(got))):
        k = j % 3
        calls.check_call(h, got[j], USER if k == 1 else OTHER, a if k == 1 else j, left, f'm{j}' if k == 0 else '',
                         {'x': a, 'y': j} if k == 0 else [])
        calls.check_outcome(h, box[j], (codes[j], steps[j], a + j if codes[j] == 0 else f'e{j}'), left,
                            ['value', 'transfer', 'send'][k])
        left = Ite(steps[j] > left, 0, left - steps[j])
    h.check('steps', r[1] == limit - left)


POOL = [0, 1, -1, 127, 128, 255, 256, 2 ** 70, '', 'a', 'b', '\x00', '1', b'', b'a', b'\x00', b'\x00\x80', b'k' * 56,
        Address(EOA, b'\x01' * 20), Address(CON, b'\x01' * 20)]
VALS = {int: [0, 1, -1, 300, -2 ** 80, 2 ** 64], str: ['a', 'b', 'x' * 60, '\u20ac'],
        bytes: [b'\x00', b'a', b'ab' * 40], bool: [True, False], Address: [SELF, USER, OTHER]}


def keybytes(k):
    return k if isinstance(k, bytes) else k.encode() if isinstance(k, str) else spec.I2B(k) if isinstance(k, int) else \
        addr_bytes(k)


def same_key(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


class Store:
    """contracts at two addresses that run the same program on their own data;
    `state` is what they should find there"""

    def __init__(self, h, seed):
        self.h, self.x = h, seed * 2654435761 % 2 ** 32 + 1
        self.state = []
        self.w = World(h)
        self.w.node.initial = lambda k: None
        self.w.node.on_contains = self.search
        self.v = h.int('v')
        self.k = b'\xe5' if h.symbolic else h.bytes('k')
        self.depth = 0
        self.old = {}

    def pick(self, n):
        self.x = (self.x * 1103515245 + 12345) % 2 ** 31
        return self.x // 65536 % n

    def one(self, seq):
        return seq[self.pick(len(seq))]

    def search(self, data):
        vals = [e for p, n, e in self.searching]
        return [data[1] in vals, len(vals), 0]

    def put(self, key, v):
        self.state = [(k, x) for k, x in self.state if not same_key(k, key)] + [(key, v)]

    def step(self, s):
        h = self.h
        what = self.one(['var', 'var', 'dict', 'dict', 'dict', 'deep', 'array', 'array', 'array'])
        t = [int, str, bytes, bool, Address][self.pick(5)]
        sub = [b'p'] if self.pick(4) == 0 else []
        db = s.db
        for p in sub:
            db = db.get_sub_db(p)
        name = f'{what}{t.__name__}'
        val = self.one(VALS[t])
        if t is int and self.pick(3) == 0:
            val = self.v
        op = self.one(['get', 'set', 'set', 'remove', 'has'])
        if what == 'array':
            return self.array(db, sub, name, t, val)
        nb = name.encode()
        if what == 'var':
            key, d = ('var', nb, *sub), self.handle(db, sub, name, lambda: VarDB(name, db, t))
            if op == 'get' or op == 'has':
                got = d.get()
            elif op == 'set':
                d.set(val)
            else:
                d.remove()
        else:
            n = 1 if what == 'dict' else 2
            ks = [self.one(POOL) for i in range(n)]
            if self.pick(8) == 0:
                ks[-1] = self.k
            key = ('dict', nb, *sub, *[keybytes(x) for x in ks])
            d = self.handle(db, sub, name, lambda: DictDB(name, db, t, n))
            for x in ks[:-1]:
                d = d[x]
            if op == 'get':
                got = d[ks[-1]]
            elif op == 'has':
                h.check('membership', (ks[-1] in d) == (self.find(key) is not None))
                return
            elif op == 'set':
                d[ks[-1]] = val
            elif self.pick(2):
                d.remove(ks[-1])
            else:
                del d[ks[-1]]
        if op == 'set':
            self.put(key, val)
        elif op == 'remove':
            self.put(key, None)
        else:
            f = self.find(key)
            h.check('the last write', spec.same(got, DEFAULTS[t] if f is None else f))

    def find(self, key):
        for k, v in self.state:
            if same_key(k, key):
                return v
        return None

    def handle(self, db, sub, name, make):
        # a handle of this execution, used before or new
        if self.pick(2):
            return make()
        at = (len(sub), name)
        if at not in self.handles:
            self.handles[at] = (make(), db)
        return self.handles[at][0]

    def array(self, db, sub, name, t, val):
        h = self.h
        if sub:
            return
        d = self.handle(db, sub, name, lambda: ArrayDB(name, db, t))
        a = list(self.find(('array', name)) or ())
        n = len(a)
        i = self.pick(2 * n + 3) - n - 1
        op = self.one(['put', 'put', 'put', 'pop', 'get', 'set', 'iter', 'len', 'in'])
        if op == 'put':
            d.put(val)
            a.append(val)
        elif op == 'pop':
            h.check('the last', spec.same(d.pop(), a.pop() if a else None))
        elif op == 'get' or op == 'set':
            o = outcome(d.__getitem__, i) if op == 'get' else outcome(d.__setitem__, i, val)
            h.check('in range', (o[0] == 'ok') == (-n <= i < n))
            if -n <= i < n:
                if op == 'get':
                    h.check('the element', spec.same(o[1], a[i]))
                else:
                    a[i] = val
        elif op == 'iter':
            h.check('all elements', spec.same([x for x in d], a))
        elif op == 'len':
            h.check('the length', len(d) == n)
        else:
            self.searching = [(0, 0, enc(x)) for x in a]
            h.check('the answer', Iff(val in d, Or(False, *[enc(val) == enc(x) for x in a])))
        self.put(('array', name), a)

    def run(self, s):
        self.handles = {}
        n = 4 + self.pick(10)
        for j in range(n):
            self.step(s)
            if self.depth < 2 and self.pick(5) == 0:
                self.nested(s)
        if self.depth and self.fails:
            raise ValueError('m')
        return n

    def nested(self, s):
        """a call back into the same contract; what a failing one did is undone
        by the node"""
        mine, was = self.handles, list(self.state)
        fails, self.fails = self.fails if self.depth else False, self.pick(2) == 0
        undo = self.fails
        mark = len(self.w.node.writes)

        def on_call(node, data):
            node.replies.append((Message.INVOKE, self.w.message('run', costs={})))

            def back(n, res):
                if res[0] != 0:
                    del n.writes[mark:]
                n.replies.append((Message.RESULT, [res[0], res[1], res[2]]))
            node.after.append(back)
        self.w.node.on_call = on_call
        self.depth += 1
        o = outcome(s.call, SELF, 'run', {})
        self.depth -= 1
        self.h.check('its outcome', (o[0] == 'raise') == undo)
        if undo:
            self.state = was
        self.handles, self.fails = mine, fails


DEFAULTS = {int: 0, str: '', bytes: None, bool: False, Address: None}


@unit('C04 C05 C06', store.VD + ' ' + ' '.join(store.ARR.format(m) for m in ('put', 'pop', '__iter__')),
      bounded='histories of a few invocations and nested calls with up to 14 operations each')
def store_history(h):
    """variables, dictionaries and arrays together, in histories with calls
    back into the contract, some of which fail and are undone"""
    seed = h.choose('history', list(range(48)))
    if not h.symbolic:
        seed = seed + 48 * h.int('more', 0, 10 ** 6)
    st = Store(h, seed)
    Prog.run = st.run
    st.fails = False
    for j in range(3):
        st.w.deliver((Message.INVOKE, st.w.message('run', costs={})))
        res = st.w.node.sent(Message.RESULT)
        h.check('answered', And(st.w.node.busy == 0, len(res) > 0))
        if len(res) == 0:
            return
        h.check('success', res[-1][0] == 0)


HOOKED = '''
class Main(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()
'''
TWIN = {'A': '''
class Pt(TypedDict):
    x: int
    y: str
''' + HOOKED + '''
    @external
    def m(self, a: int, b: str = 'd') -> int:
        SEEN.append([a, b])
        return 1

    @external(readonly=True)
    def r(self, p: Pt) -> int:
        SEEN.append(p)
        return 1

    @payable
    @external
    def pay(self):
        SEEN.append('pay')

    @external
    def emit(self):
        EMIT(self)

    @eventlog(indexed=1)
    def Ev(self, a: int, b: str = 'd'):
        pass

    @payable
    def fallback(self):
        SEEN.append('fallback')
''', 'B': '''
class Pt(TypedDict):
    z: bytes
''' + HOOKED + '''
    @external(readonly=True)
    def m(self, a: bytes, b: int = 5, c: Address = None) -> str:
        SEEN.append([a, b, c])
        return 'one'

    @external
    def r(self, p: Pt):
        SEEN.append(p)

    @external
    def pay(self):
        SEEN.append('pay')

    @external
    def emit(self):
        EMIT(self)

    @eventlog(indexed=2)
    def Ev(self, a: str, b: bytes = b'x', c: bool = False):
        pass

    def fallback(self):
        SEEN.append('fallback')
''', 'C': HOOKED + '''
    @external
    def m(self, a: int, b: float = 1.0) -> int:
        SEEN.append([a, b])
        return 1

    @external
    def pay(self):
        SEEN.append('pay')

    @external
    def emit(self):
        EMIT(self)
'''}
TWIN_API = {
    'A': STD[:2] + [fn('m', EXTERNAL, [['a', 1, None], ['b', 2, b'd']], mandatory=1),
                    fn('r', EXTERNAL | READONLY, [['p', 8, None, [['x', 1, None], ['y', 2, None]]]], [1]),
                    fn('pay', EXTERNAL | PAYABLE, []), fn('emit', EXTERNAL, []),
                    [EVENT, 'Ev', 0, 1, [['a', 1, None], ['b', 2, None]], []],
                    [1, 'fallback', PAYABLE, 0, [], []]],
    'B': STD[:2] + [fn('m', EXTERNAL | READONLY, [['a', 3, None], ['b', 1, b'\x05'], ['c', 5, None]], [2], mandatory=1),
                    fn('r', EXTERNAL, [['p', 8, None, [['z', 3, None]]]]), fn('pay', EXTERNAL, []),
                    fn('emit', EXTERNAL, []),
                    [EVENT, 'Ev', 0, 2, [['a', 2, None], ['b', 3, None], ['c', 4, None]], []]]}


def emit_twin(s):
    Prog.run(s)


@unit('C11 C14 C16 C17 C18', itf.API + dispatch.DI + ' ' + events.EV + ' ' + params.CV,
      bounded='histories of eight steps on three packages')
def twins(h):
    """packages whose classes, methods, events and structures have the same
    names but other declarations: each is taken by its own"""
    w = World(h)
    x = h.choose('history', list(range(32)))
    if not h.symbolic:
        x = x + 32 * h.int('more', 0, 10 ** 6)
    x = x * 2654435761 % 2 ** 32 + 1
    i, t = h.int('i'), h.str('t')
    b = h.bytes('b')

    def load(path):
        ns = {'__name__': 'score_module', 'SEEN': SEEN, 'EMIT': emit_twin}
        spec.define(source_head() + TWIN[path[-1]], ns)
        return ns['Main']
    itf.IconScoreLoader.load_module = staticmethod(load)
    for step in range(8):
        x = (x * 1103515245 + 12345) % 2 ** 31
        which = 'AABBABAC'[x // 65536 % 8]
        x = (x * 1103515245 + 12345) % 2 ** 31
        op = ['api', 'm', 'm default', 'pay', 'Ev', 'Ev default', 'fallback', 'positional'][x // 65536 % 8]
        code = '/nonexistent/' + which
        SEEN.clear()
        if op == 'api':
            n = len(w.node.sent(Message.GETAPI))
            w.deliver((Message.GETAPI, spec.UTF8(code)))
            sent = w.node.sent(Message.GETAPI)
            h.check('one reply', len(sent) == n + 1)
            if len(sent) != n + 1:
                return
            if which == 'C':
                h.check('refused', And(sent[-1][0] != 0, sent[-1][1] is None))
            else:
                h.check('success', sent[-1][0] == 0)
                if sent[-1][0] == 0:
                    expect(h, sent[-1][1], TWIN_API[which])
            continue
        k = {'code': code, 'costs': {}}
        want = None
        ev0 = len(w.node.sent(Message.EVENT))
        box = []
        if op in ('m', 'm default'):
            k['params'] = {'a': str(i) if which != 'B' else spec.cat('0x', spec.HEX(b))}
            want = [i, 'd'] if which == 'A' else [b, 5, None]
            if op == 'm':
                k['params']['b'] = t if which != 'B' else str(i)
                want = [i, t] if which == 'A' else [b, i, None]
        elif op == 'positional':
            k['params'] = [i, t] if which != 'B' else [b, i, SELF]
            want = k['params']
        elif op == 'pay':
            k['value'] = 1
            want = 'pay'
        elif op in ('Ev', 'Ev default'):
            args = ([i] if which == 'A' else [t]) + ([] if op == 'Ev default' else [t] if which == 'A' else [b, True])
            Prog.run = lambda s: box.append(outcome(s.Ev, *args))
        method = {'m default': 'm', 'positional': 'm', 'Ev': 'emit', 'Ev default': 'emit'}.get(op, op)
        r = w.invoke(method, **k)
        if r is None:
            h.check('one result', False)
            return
        ev = w.node.sent(Message.EVENT)[ev0:]
        if which == 'C':
            h.check('refused', And(r[0] != 0, len(SEEN) == 0, len(box) == 0))
        elif method == 'emit':
            h.check('recorded once', And(len(box) == 1, len(ev) == 1))
            if len(ev) == 1:
                full = [i, t if op == 'Ev' else 'd'] if which == 'A' else [t] + ([b, True] if op == 'Ev' else [b'x', False])
                n = 1 if which == 'A' else 2
                sig = 'Ev(int,str)' if which == 'A' else 'Ev(str,bytes,bool)'
                h.check('as declared', spec.same([list(ev[0][0]), list(ev[0][1])],
                                                 [[spec.UTF8(sig)] + [enc(v) for v in full[:n]], [enc(v) for v in full[n:]]]))
        elif op == 'pay' and which == 'B':
            h.check('not payable', And(r[0] == 4, len(SEEN) == 0))
        elif op == 'fallback':
            h.check('fallback', And(r[0] == (0 if which == 'A' else 3), SEEN == (['fallback'] if which == 'A' else [])))
        else:
            h.check('ran once', And(r[0] == 0, len(SEEN) == 1))
            if len(SEEN) == 1:
                h.check('with its own types', spec.same(SEEN[0], want))


def source_head():
    from vc.declare import HEAD
    return HEAD
