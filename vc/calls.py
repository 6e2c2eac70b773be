"""C13: calls between contracts."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, Prog, Message, Address, EOA, CON, SELF, OTHER, USER, addr_bytes, sym_address, outcome, wire,
                    unwire, interface, code_of)
from vc.outcome import one_result, sym_result, next_works
from pyexec.base import exception as X
from pyexec.iconscore.icon_score_base2 import InterfaceScore, create_interface_score, sha3_256
from pyexec.iconscore.icon_container_db import VarDB

MC = 'pyexec.iconscore.internal_call:InternalCall.message_call pyexec.ipc.proxy:ServiceManagerProxy.call '
CALL = MC + 'pyexec.iconscore.icon_score_base:IconScoreBase.call '
ICX = MC + ('pyexec.iconscore.icon_score_base2:Icx.transfer pyexec.iconscore.icon_score_base2:Icx.send '
            'pyexec.iconscore.icon_score_base:IconScoreBase.icx ')
IFACE = MC + ('pyexec.iconscore.icon_score_base:interface pyexec.iconscore.icon_score_base2:InterfaceScore.icx '
              'pyexec.iconscore.icon_score_base2:InterfaceScore.__get_icx '
              'pyexec.iconscore.icon_score_base2:InterfaceScore.__reset_icx '
              'pyexec.iconscore.icon_score_base2:create_interface_score ')


class Iface(InterfaceScore):
    @interface
    def foo(self, a: int, b: str = 'x') -> int:
        pass

    @interface
    def bar(self) -> None:
        pass


class Peer:
    """answers the calls; records the requests"""

    def __init__(self, h, w, n=1, results=None):
        self.calls = []
        self.answers = []
        self.between = []
        for i in range(n):
            st = h.choose(f'status{i}', ['ok', 'fail'])
            code = 0 if st == 'ok' else h.int(f'code{i}', 1, 1100, near=(31, 32, 33, 999))
            steps = h.int(f'steps{i}', 0)
            if st == 'ok':
                val = sym_result(h) if results is None else h.int(f'value{i}')
            else:
                val = h.str(f'message{i}')
            self.answers.append((code, steps, val))
        w.node.on_call = self

    def __call__(self, node, data):
        i = len(self.calls)
        self.calls.append(data)
        self.between.append([m for m, r in node.replies])
        code, steps, val = self.answers[i]
        node.replies.append((Message.RESULT, [code, spec.I2B(steps), wire(val)]))


def check_call(h, data, to, amount, limit, method, params):
    h.check('target', data[0] == addr_bytes(to))
    h.check('coins', data[1] == spec.I2B(amount))
    h.check('step limit is what is left', data[2] == spec.I2B(limit))
    h.check('kind of message', data[3] == b'call')
    h.check('method and arguments', spec.same(unwire(data[4]), {'method': method, 'params': params}))


def check_outcome(h, got, answer, left, mode='value'):
    """what the caller sees; answers what it is charged"""
    code, steps, val = answer
    over = steps > left
    if mode == 'send':
        h.check('sending returns', got[0] == 'ok')
        if got[0] != 'ok':
            return
        if got[1]:
            h.check('true means success', And(code == 0, Not(over)))
        else:
            h.check('false means failure', Or(Not(code == 0), over))
        h.check('a boolean', isinstance(got[1], bool))
        return
    if got[0] == 'ok':
        h.check('success only if the callee succeeded within its limit', And(code == 0, Not(over)))
        if mode == 'value':
            h.check('the value of the callee', spec.same(got[1], val))
        else:
            h.check('a transfer returns nothing', got[1] is None)
    else:
        e = got[1]
        if isinstance(e, X.IconServiceBaseException):
            h.check('failure only if the callee failed', Not(code == 0))
            h.check('within the limit', Not(over))
            h.check('code of the callee', e.code == code)
            h.check('message of the callee', e.message == val)
            h.check('kind of error', Iff(And(code >= 32, code <= 999), isinstance(e, X.IconScoreException)))
        else:
            h.check('other errors only when the callee reports too many steps', over)


def caller(h, prog, n=1, results=None, query=None, removal=False):
    """run prog in a transaction that has already spent something"""
    w = World(h)
    p = Peer(h, w, n, results)
    limit = h.int('limit', 0)
    api = h.int('api', 0)
    fee = h.int('fee', 0, 1000)
    h.assume(api <= limit)
    w.node.initial = lambda k: h.bytes('old', lo=1, hi=1000)
    box = []

    def run(s):
        sha3_256(b'')
        if removal:
            VarDB('x', s.db, bytes).remove()
        prog(s, box)
        return 3
    Prog.run = run
    r = w.invoke('run', limit=limit, costs={'schema': 1, 'apiCall': api, 'delete': fee}, query=bool(query))
    used = api
    for k, v in w.node.init:
        used = used + fee * len(v)
    return w, p, r, box, limit, used


def finish(h, w, p, r, left, used, total):
    one_result(h, w, r)
    if r is None:
        return
    h.check('the caller pays exactly what the callee used', r[1] == total)


@unit('C13', CALL)
def call_message(h):
    to = sym_address(h, 'to')
    amount = h.int('amount')
    named = h.choose('method', ['none', 'fallback', 'Fallback', 'FALLBACK', 'fallbac', ' fallback', 'fallback\n', 'name'])
    name = None if named == 'none' else h.str('name') if named == 'name' else named
    nargs = h.choose('nargs', [None, 0, 1, 2, 32]) if named in ('none', 'fallback', 'name') else None
    kw = None if nargs is None else {}
    for i in range(nargs or 0):
        kw['ab'[i] if i < 2 else f'k{i}'] = i if i > 1 else sym_result(h) if i == 0 and nargs < 3 else h.int('arg1')
    default = nargs == 0 and h.choose('default_amount', [False, True])
    query = named in ('none', 'name') and nargs in (None, 1) and h.choose('query', [False, True])

    def prog(s, box):
        if default:
            box.append(outcome(s.call, to, name, kw))
        else:
            box.append(outcome(s.call, to, name, kw, amount))
    w, p, r, box, limit, used = caller(h, prog, query=query, results='int')
    if not one_result(h, w, r):
        return
    h.check('exactly one call', len(p.calls) == 1)
    left = limit - used
    method = '' if name is None else name
    if method == 'fallback':
        method = ''
    check_call(h, p.calls[0], to, 0 if default else amount, left, method, kw if nargs else [])
    check_outcome(h, box[0], p.answers[0], left)
    code, steps, val = p.answers[0]
    h.check('the caller pays exactly what the callee used', r[1] == Ite(steps > left, limit, used + steps))
    h.check('the caller continues', And(r[0] == 0, r[2] == 3))


@unit('C13', CALL)
def call_result(h):
    """every kind of result, in a query and in a transaction"""
    query = h.choose('query', [False, True])

    def prog(s, box):
        box.append(outcome(s.call, OTHER, 'foo', {}))
    w, p, r, box, limit, used = caller(h, prog, query=query)
    if not one_result(h, w, r):
        return
    h.check('exactly one call', len(p.calls) == 1)
    left = limit - used
    check_call(h, p.calls[0], OTHER, 0, left, 'foo', [])
    check_outcome(h, box[0], p.answers[0], left)
    code, steps, val = p.answers[0]
    h.check('the caller pays exactly what the callee used', r[1] == Ite(steps > left, limit, used + steps))


@unit('C13', CALL)
def call_uncaught(h):
    """an error of the callee that the caller does not catch is its own
    outcome"""
    w = World(h)
    p = Peer(h, w, 1)
    limit = h.int('limit', 0)
    Prog.run = lambda s: s.call(OTHER, 'foo', {'a': 1}, 5)
    r = w.invoke('run', limit=limit, costs={})
    if not one_result(h, w, r):
        return
    code, steps, val = p.answers[0]
    h.check('steps', r[1] == Ite(steps > limit, limit, steps))
    if steps > limit:
        h.check('reporting too many steps is a system error', r[0] == 1)
    else:
        h.check('outcome of the callee', And(r[0] == code, spec.same(r[2], val)))
    next_works(h, w)


@unit('C13 C15', CALL)
def call_after_writes(h):
    """pending replies are settled before the limit of the callee is fixed"""
    n = h.choose('removals', [1, 2])
    w = World(h)
    p = Peer(h, w, 1, 'int')
    limit = h.int('limit', 0)
    fee = h.int('fee', 0, 1000)
    how = h.choose('how', ['call', 'call with coins', 'transfer', 'send', 'interface', 'interface with coins'])
    coins = h.int('coins', 0) if 'coins' in how or how in ('transfer', 'send') else 0
    w.node.initial = lambda k: h.bytes('old', lo=1, hi=1000)
    box = []

    def run(s):
        for i in range(n):
            VarDB(i, s.db, bytes).remove()
        if how == 'call':
            box.append(outcome(s.call, OTHER, 'foo', {}))
        elif how == 'call with coins':
            box.append(outcome(s.call, OTHER, 'foo', {}, coins))
        elif how in ('transfer', 'send'):
            box.append(outcome(s.icx.transfer if how == 'transfer' else s.icx.send, OTHER, coins))
        else:
            x = s.create_interface_score(OTHER, Iface)
            if 'coins' in how:
                x.icx(coins)
            box.append(outcome(x.bar))
        return 3
    Prog.run = run
    r = w.invoke('run', limit=limit, costs={'schema': 1, 'delete': fee})
    if not one_result(h, w, r):
        return
    used = 0
    for k, v in w.node.init:
        used = used + fee * len(v)
    if len(p.calls) == 0:
        h.check('not called only when out of step', used > limit)
        if how != 'send':
            h.check('out of step', And(box[0][0] == 'raise', isinstance(box[0][1], X.IconServiceBaseException)))
        h.check('all is used', r[1] == limit)
        return
    h.check('called once', And(len(p.calls) == 1, used <= limit))
    h.check('no reply is pending when the call is sent', p.between[0] == [])
    check_call(h, p.calls[0], OTHER, coins, limit - used, {'call': 'foo', 'call with coins': 'foo', 'transfer': '', 'send': ''}.get(
        how, 'bar'), [])
    check_outcome(h, box[0], p.answers[0], limit - used, {'send': 'send', 'transfer': 'none'}.get(how, 'value'))
    code, steps, val = p.answers[0]
    h.check('the caller pays exactly what the callee used', r[1] == Ite(steps > limit - used, limit, used + steps))


@unit('C13', ICX)
def call_transfer(h):
    to = sym_address(h, 'to')
    amount = h.int('amount')
    how = h.choose('how', ['transfer', 'send'])

    def prog(s, box):
        box.append(outcome(s.icx.transfer if how == 'transfer' else s.icx.send, to, amount))
    w, p, r, box, limit, used = caller(h, prog, results='int')
    if not one_result(h, w, r):
        return
    h.check('exactly one call', len(p.calls) == 1)
    left = limit - used
    check_call(h, p.calls[0], to, amount, left, '', [])
    check_outcome(h, box[0], p.answers[0], left, 'send' if how == 'send' else 'none')
    code, steps, val = p.answers[0]
    h.check('the caller pays exactly what the callee used', r[1] == Ite(steps > left, limit, used + steps))


@unit('C13', IFACE)
def call_interface(h):
    to = sym_address(h, 'to')
    coins = h.choose('coins', [False, True])
    amount = h.int('amount') if coins else 0
    a, b = h.int('a'), h.str('b')
    form = h.choose('form', ['pos', 'pos2', 'kw', 'mixed', 'none'])

    def prog(s, box):
        x = s.create_interface_score(to, Iface)
        if coins:
            o = outcome(x.icx, amount)
            box.append(o)
            if o[0] == 'raise':
                return
            h.check('for chaining', o[1] is x)
        else:
            box.append(None)
        if form == 'pos':
            box.append(outcome(x.foo, a))
        elif form == 'pos2':
            box.append(outcome(x.foo, a, b))
        elif form == 'kw':
            box.append(outcome(x.foo, b=b, a=a))
        elif form == 'mixed':
            box.append(outcome(x.foo, a, b=b))
        else:
            box.append(outcome(x.bar))
        box.append(outcome(x.bar))
    w, p, r, box, limit, used = caller(h, prog, n=2, results='int')
    if not one_result(h, w, r):
        return
    if coins and box[0][0] == 'raise':
        h.check('refused only when negative', And(amount < 0, len(p.calls) == 0))
        h.check('as an invalid parameter', code_of(box[0]) == 6)
        return
    h.check('negative coins are refused', amount >= 0)
    h.check('two calls', len(p.calls) == 2)
    left = limit - used
    params = {'pos': [a], 'pos2': [a, b], 'kw': {'a': a, 'b': b}, 'mixed': {'b': b, '.': [a]}, 'none': []}[form]
    check_call(h, p.calls[0], to, amount, left, 'bar' if form == 'none' else 'foo', params)
    check_outcome(h, box[1], p.answers[0], left)
    s0 = p.answers[0][1]
    left2 = Ite(s0 > left, 0, left - s0)
    # the coins were for one call only
    check_call(h, p.calls[1], to, 0, left2, 'bar', [])
    check_outcome(h, box[2], p.answers[1], left2)
    s1 = p.answers[1][1]
    h.check('the caller pays exactly what the callees used',
            r[1] == limit - Ite(s1 > left2, 0, left2 - s1))


@unit('C13', IFACE)
def call_interface_many(h):
    """any number of arguments, absent ones included, in any form"""
    n, k = h.choose('sizes', [(0, 0), (1, 0), (2, 0), (40, 0), (300, 0), (0, 1), (0, 33), (3, 2), (17, 33)])
    v = h.choose('value', [lambda: None, lambda: h.int('v'), lambda: '', lambda: [], lambda: {}, lambda: b'', lambda: False])()
    at = h.choose('at', ['last', 'all'])
    args = [v if at == 'all' or i == (0 if at == 'first' else n - 1) else i for i in range(n)]
    kw = {f'k{i}': v if at == 'all' or i == (0 if at == 'first' else k - 1) else i for i in range(k)}

    def prog(s, box):
        x = create_interface_score(OTHER, Iface)
        box.append(outcome(x.foo, *args, **kw))
    w, p, r, box, limit, used = caller(h, prog, results='int')
    if not one_result(h, w, r):
        return
    h.check('one call', len(p.calls) == 1)
    want = args
    if k:
        want = dict(kw)
        if n:
            want['.'] = args
    check_call(h, p.calls[0], OTHER, 0, limit - used, 'foo', want)


class Wrong:
    _InterfaceScore__icx = 0


@unit('C13', IFACE)
def call_interface_bad(h):
    """no call leaves for a missing address, a foreign object or the bare
    interface class"""
    case = h.choose('case', ['no address', 'foreign', 'bare class', 'coins'])
    bad = h.choose('bad', ['1', None, 1.0, -1]) if case == 'coins' else None

    def prog(s, box):
        if case == 'no address':
            box.append(outcome(create_interface_score(None, Iface).foo, 1))
        elif case == 'foreign':
            box.append(outcome(Iface.foo, Wrong(), 1))
        elif case == 'bare class':
            box.append(outcome(create_interface_score, OTHER, InterfaceScore))
        else:
            box.append(outcome(create_interface_score(OTHER, Iface).icx, bad))
    w, p, r, box, limit, used = caller(h, prog, results='int')
    one_result(h, w, r)
    h.check('no call', len(p.calls) == 0)
    h.check('refused', And(box[0][0] == 'raise', isinstance(box[0][1], X.IconServiceBaseException)))


@unit('C13', CALL)
def call_sequence(h):
    """two calls in a row: each gets what is left, each is paid"""
    def prog(s, box):
        box.append(outcome(s.call, OTHER, 'foo', {'k': 1}))
        box.append(outcome(s.icx.send, USER, 9))
    w, p, r, box, limit, used = caller(h, prog, n=2, results='int')
    if not one_result(h, w, r):
        return
    left = limit - used
    h.check('two calls', len(p.calls) == 2)
    check_call(h, p.calls[0], OTHER, 0, left, 'foo', {'k': 1})
    s0 = p.answers[0][1]
    left2 = Ite(s0 > left, 0, left - s0)
    check_call(h, p.calls[1], USER, 9, left2, '', [])
    check_outcome(h, box[0], p.answers[0], left)
    check_outcome(h, box[1], p.answers[1], left2, 'send')
    s1 = p.answers[1][1]
    h.check('steps', r[1] == limit - Ite(s1 > left2, 0, left2 - s1))


@unit('C13', MC)
def call_arguments_kept(h):
    """the arguments of the caller are not changed by the call"""
    inner = [1, 2]
    kw = {'a': inner, 'b': h.int('b')}
    before = {'a': [1, 2], 'b': kw['b']}

    def prog(s, box):
        box.append(outcome(s.call, OTHER, 'foo', kw))
        x = create_interface_score(OTHER, Iface)
        box.append(outcome(x.foo, 1, b='y'))
    w, p, r, box, limit, used = caller(h, prog, n=2, results='int')
    one_result(h, w, r)
    h.check('the caller keeps its arguments', And(spec.same(kw, before), kw['a'] is inner))
