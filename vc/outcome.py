"""C12: one true result per invocation.  C20: fee-sharing proportion."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, Prog, Odd, end, Hooks, hooked, Score, Message, IconScoreBase, external, sym_address, SELF, USER, CON, EOA, Address,
                    wire, CODE, addr_bytes)
from pyexec.base import exception as X
from pyexec.iconscore.icon_score_base2 import revert, sha3_256
from pyexec.iconscore.icon_container_db import VarDB

INV = ('pyexec.service_engine:ServiceEngine.invoke pyexec.service_engine:ServiceEngine._handle_invoke '
       'pyexec.service_engine:ServiceEngine._get_status_from_exception '
       'pyexec.ipc.proxy:ServiceManagerProxy.__handle_invoke pyexec.ipc.proxy:ServiceManagerProxy.loop '
       'pyexec.pyexec:PyExecEngine.invoke_handler')


def one_result(h, w, r, status=None, result=None, used=None):
    """the last invocation was answered exactly once, as expected"""
    h.check('exactly one result message', r is not None)
    if r is None:
        return False
    h.check('never waits for a message that nobody sends', w.node.starved == 0)
    h.check('no reply is left unread', len(w.node.replies) == 0)
    if status is not None:
        h.check('status', r[0] == status)
    if used is not None:
        h.check('steps', r[1] == used)
    return True


def next_works(h, w):
    """the executor is ready and unaffected"""
    Prog.run = lambda s: [s.msg.value, s.msg.sender, s.tx.nonce]
    r = w.invoke('run', value=0, frm=Address(EOA, b'\x09' * 20), limit=1000, costs={}, info={'T.nonce': 77})
    h.check('next invocation: one result', r is not None)
    if r is not None:
        h.check('next invocation: outcome', And(r[0] == 0, r[1] == 0))
        h.check('next invocation: its own data', spec.same(r[2], [0, Address(EOA, b'\x09' * 20), 77]))
    h.check('never waits for a message that nobody sends', w.node.starved == 0)


def sym_result(h):
    k = h.choose('result_kind', ['none', 'int', 'str', 'bytes', 'bool', 'address', 'list', 'dict', 'empty list', 'empty dict'])
    if k == 'none':
        return None
    if k == 'int':
        return h.int('ret')
    if k == 'str':
        return h.str('ret')
    if k == 'bytes':
        return h.bytes('ret')
    if k == 'bool':
        return True if h.bool('ret') else False
    if k == 'address':
        return sym_address(h, 'ret')
    if k == 'list':
        return [h.int('ret0'), None, h.str('ret1'), {}]
    if k.startswith('empty'):
        return [] if k == 'empty list' else {}
    return {'a': h.int('ret0'), 'b': [h.bytes('ret1')]}


@unit('C12', INV)
def invoke_success(h):
    w = World(h)
    v = sym_result(h)
    limit = h.int('limit', 0)
    api = h.int('api', 0)

    def run(s):
        sha3_256(b'')
        return v
    Prog.run = run
    r = w.invoke('peek', limit=limit, costs={'apiCall': api}, query=h.choose('query', [False, True]))
    if not one_result(h, w, r):
        return
    if api <= limit:
        h.check('success', r[0] == 0)
        h.check('steps used', r[1] == api)
        h.check('the returned value is delivered', spec.same(r[2], v))
    else:
        h.check('out of step', r[0] == 10)
        h.check('the whole limit is used', r[1] == limit)
        h.check('message', spec.same(r[2], 'Out of step: apiCall'))
    next_works(h, w)


class Custom(X.IconScoreException):
    pass


SERVICE = [(X.ScoreNotFoundException, 2), (X.MethodNotFoundException, 3), (X.MethodNotPayableException, 4),
           (X.IllegalFormatException, 5), (X.InvalidParamsException, 6), (X.InvalidInstanceException, 7),
           (X.InvalidContainerAccessException, 8), (X.DatabaseException, 9), (X.InvalidRequestException, 5),
           (X.InvalidExternalException, 5), (X.InvalidPayableException, 5), (X.InvalidEventLogException, 5),
           (X.InvalidInterfaceException, 5)]
PYTHON = [ValueError, KeyError, ZeroDivisionError, AssertionError, RuntimeError, TypeError, SystemExit,
          KeyboardInterrupt, GeneratorExit, StopIteration, BaseException, RecursionError, OSError]


def clamp(code):
    return Ite(code < 0, 32, Ite(code > 967, 999, code + 32))


def failing(h, run, status, message, api=7):
    w = World(h)
    limit = h.int('limit', 7)

    def prog(s):
        sha3_256(b'')
        return run(s)
    Prog.run = prog
    r = w.invoke('run', limit=limit, costs={'apiCall': api})
    if not one_result(h, w, r):
        return
    h.check('failure status', r[0] == status)
    h.check('failure is not reported as success', Not(r[0] == 0))
    h.check('steps used so far', r[1] == api)
    if message is not None:
        h.check('message of the error', spec.same(r[2], message))
    next_works(h, w)


@unit('C12', INV + ' pyexec.iconscore.icon_score_base2:revert '
                   'pyexec.base.exception:IconScoreException.__init__')
def invoke_revert(h):
    msg = h.str('msg')
    code = h.int('code', near=(-1, 0, 967, 999))
    k = h.choose('how', ['revert', 'raise', 'subclass', 'method'])

    def run(s):
        if k == 'revert':
            revert(msg, code)
        if k == 'raise':
            raise X.IconScoreException(msg, code)
        if k == 'method':
            s.revert(msg, code)
        raise Custom(msg, code)
    failing(h, run, clamp(code), msg)


@unit('C12', 'pyexec.iconscore.icon_score_base2:revert')
def invoke_revert_odd(h):
    """arguments of other types"""
    c = h.choose('case', [
        ((), 32, 'None'), (('x',), 32, 'x'), (('x', '5'), 37, 'x'), ((None, 3), 35, 'None'), ((12, 4), 36, '12'),
        (('x', 'abc'), 6, None), (('x', None), 6, None), (('x', b'1'), 33, 'x'), (('x', True), 33, 'x'),
        (('x', 10 ** 30), 999, 'x'), (('x', -10 ** 30), 32, 'x'), (('x', []), 6, None), (('', 967), 999, ''),
        (('', 968), 999, ''), (('', -1), 32, '')])
    a, st, m = c
    failing(h, lambda s: revert(*a), st, m)


@unit('C12', INV)
def invoke_service_error(h):
    cls, code = h.choose('error', SERVICE)
    msg = h.str('msg')

    def run(s):
        raise cls(msg)
    failing(h, run, code, msg)


@unit('C12', INV)
def invoke_python_error(h):
    cls = h.choose('error', PYTHON)

    def run(s):
        raise cls('boom')
    failing(h, run, 1, None)


@unit('C12', 'pyexec.base.exception:IconServiceBaseException.__init__')
def invoke_no_message(h):
    """errors raised without a message"""
    cls, code = h.choose('error', SERVICE + [(X.IconScoreException, 32)])
    how = h.choose('how', ['none', 'empty'])

    def run(s):
        raise cls(None if how == 'none' else '')
    failing(h, run, code, '' if how == 'empty' else None)


class NoInit(X.IconScoreException):
    """an exception of a contract that does not initialize its base"""

    def __init__(self, x):
        self.x = x


class NoText(ValueError):
    def __str__(self):
        return self.args[7]


class NoRepr(KeyError):
    def __repr__(self):
        raise SystemExit()


class NoCode(X.InvalidParamsException):
    @property
    def code(self):
        raise StopIteration()


@unit('C12 C15', INV)
def invoke_error_without_text(h):
    """errors that fail to tell their code or message: a system error, and what is pending is settled"""
    cls = h.choose('error', [NoInit, NoText, NoRepr, NoCode, Odd])
    a = h.int('api', 0)
    w = World(h)

    def prog(s):
        sha3_256(b'')
        VarDB('x', s.db, int).set(1)
        raise cls('x')
    Prog.run = prog
    r = w.invoke('run', limit=a + h.int('spare', 0), costs={'apiCall': a})
    if not one_result(h, w, r):
        return
    h.check('system error', r[0] == 1)
    h.check('steps used so far', r[1] == a)
    h.check('nothing is left to read', And(len(w.node.at_result) == 1, w.node.at_result[0] == 0))
    next_works(h, w)


TEXT = ['__str__', '__repr__', '__format__']
HOOKED = {'text of an int': lambda: hooked(int, TEXT)(7), 'text of a str': lambda: hooked(str, TEXT)('seven'),
          'text of an object': lambda: hooked(object, TEXT)(), 'text of a list': lambda: hooked(list, TEXT)([7]),
          'in a list': lambda: [hooked(int, TEXT)(7)], 'in a map': lambda: {'a': hooked(int, TEXT)(7)},
          'entries of a map': lambda: hooked(dict, ['items'])({'a': 7}),
          'elements of a list': lambda: hooked(list, ['__iter__'])([7]), 'bytes of a text': lambda: hooked(str, ['encode'])('x'),
          'truth of an int': lambda: hooked(int, ['__bool__'])(7), 'elements below': lambda: {'b': [hooked(list, ['__iter__'])([7])]}}


@unit('C12 C15', INV)
def invoke_result_hooks(h):
    """values whose text or elements cannot be made: one result all the same"""
    how = h.choose('value', sorted(HOOKED))
    Hooks.error = h.choose('error', [ValueError, X.IconScoreException, X.InvalidParamsException, SystemExit, StopIteration, Odd])
    a = h.int('api', 0)
    limit = a + h.int('spare', 0)
    w = World(h)

    def prog(s):
        sha3_256(b'')
        VarDB('x', s.db, int).set(1)
        return HOOKED[how]()
    Prog.run = prog
    r = w.invoke('run', limit=limit, costs={'apiCall': a})
    if not one_result(h, w, r):
        return
    h.check('its value and steps, or a failure with the whole limit', Or(And(r[0] == 0, r[1] == a), And(r[0] == 1, r[1] == limit)))
    if 'text' not in how and how != 'truth of an int':
        h.check('a value that cannot be sent', r[0] == 1)
    h.check('nothing is left to read', And(len(w.node.at_result) == 1, w.node.at_result[0] == 0))
    next_works(h, w)


@unit('C12', 'pyexec.base.exception:IconScoreException.__init__')
def invoke_bad_index(h):
    bad = h.choose('bad', ['5', None, 1.5])

    def run(s):
        raise X.IconScoreException('m', bad)
    failing(h, run, 6, None)


@unit('C12', INV)
def invoke_bad_result(h):
    """a result that cannot be sent is a failure, still answered once"""
    bad = h.choose('bad', [1.5, object(), {1: 2}, [set()], {'a': {None: 1}}])
    w = World(h)
    Prog.run = lambda s: bad
    limit = h.int('limit', 0)
    r = w.invoke('run', limit=limit, costs={})
    if one_result(h, w, r):
        h.check('system error', r[0] == 1)
        h.check('the whole limit', r[1] == limit)
        next_works(h, w)


@unit('C12', INV + ' pyexec.base.exception:IconServiceBaseException.create')
def error_from_callee(h):
    """errors of a callee are rebuilt from code and message"""
    code = h.int('code', 1, 1500)
    msg = h.str('msg')
    e = X.IconServiceBaseException.create(msg, code)
    h.check('kind', Iff(And(code >= 32, code <= 999), isinstance(e, X.IconScoreException)))
    h.check('code is kept', e.code == code)
    h.check('message is kept', e.message == msg)


@unit('C12 C15', INV + ' pyexec.ipc.proxy:ServiceManagerProxy.handle_set_values '
                       'pyexec.ipc.proxy:ServiceManagerProxy.__handle_set_values', cost=4)
def invoke_late_out_of_step(h):
    """steps run out while the last pending removals are settled"""
    w = World(h)
    n = h.choose('removals', [1, 2, 3])
    ok = h.choose('ends', ['returns', 'reverts'])
    size = h.int('size', 1, 1000)
    w.node.initial = lambda k: h.bytes('old', n=None, lo=1, hi=1000)
    w.node.vlen = {}
    fee = h.int('fee', 0)
    limit = h.int('limit', 0)

    def run(s):
        s.set_fee_sharing_proportion(9)
        for i in range(n):
            VarDB(i, s.db, int).remove()
        if ok == 'reverts':
            revert('x', 1)
        return 5
    Prog.run = run
    r = w.invoke('run', limit=limit, costs={'schema': 1, 'deleteBase': 0, 'delete': fee})
    if not one_result(h, w, r):
        return
    total = 0
    for k, v in w.node.init:
        total = total + fee * len(v)
    fits = total <= limit
    if ok == 'reverts':
        h.check('the first error is the outcome', r[0] == 33)
    else:
        h.check('out of step is reported', Iff(r[0] == 10, Not(fits)))
        h.check('success otherwise', Iff(r[0] == 0, fits))
    h.check('steps', Or(And(fits, r[1] == total), And(Not(fits), r[1] == limit)))
    h.check('every removal was sent once', len(w.node.sent(Message.SETVALUE)) == n)
    next_works(h, w)


# ---- C20 ------------------------------------------------------------------------

FEE = ('pyexec.iconscore.icon_score_base:IconScoreBase.set_fee_sharing_proportion '
       'pyexec.iconscore.icon_score_base:IconScoreBase.get_fee_sharing_proportion '
       'pyexec.ipc.proxy:ServiceManagerProxy.set_fee_proportion pyexec.service_engine:ServiceEngine._handle_invoke')


@unit('C20', FEE)
def fee_proportion(h):
    w = World(h)
    query = h.choose('query', [False, True])
    method = h.choose('method', ['run', 'pay', 'on_install'])
    n = h.choose('settings', [0, 1, 2])
    vals = [h.int(f'pct{i}', near=(0, 100)) for i in range(n)]
    ends = h.choose('ends', ['returns', 'reverts', 'service error', 'out of step', 'raises', 'exits', 'odd',
                            'unencodable']) if n else 'returns'
    seen = []

    def run(s):
        seen.append(s.get_fee_sharing_proportion())
        for v in vals:
            try:
                s.set_fee_sharing_proportion(v)
                seen.append('set')
            except X.IconServiceBaseException as e:
                seen.append(e.code)
            seen.append(s.get_fee_sharing_proportion())
        if ends == 'reverts':
            revert('no')
        if ends == 'service error':
            raise X.MethodNotFoundException('no')
        if ends == 'out of step':
            sha3_256(b'')
        if ends != 'returns':
            return end(w, s, ends)
        return 1
    Prog.run = run
    r = w.invoke(method, query=query, limit=7, costs={'apiCall': 8})
    if not one_result(h, w, r):
        return
    h.check('starts at zero', seen[0] == 0)
    cur = 0
    for i in range(n):
        ok = And(vals[i] >= 0, vals[i] <= 100, not query)
        got = seen[2 * i + 1]
        if got == 'set':
            h.check('accepted only in range and outside a query', ok)
            cur = vals[i]
        else:
            h.check('refused only out of range or in a query', Not(ok))
        h.check('reads the value in force', seen[2 * i + 2] == cur)
    sent = w.node.sent(Message.SETFEEPCT)
    if cur == 0:
        h.check('zero is not reported', len(sent) == 0)
    else:
        h.check('reported exactly once', len(sent) == 1)
        h.check('the value in force is reported', And(len(sent) == 1, sent[0] == cur))
        kinds = w.node.kinds()
        h.check('reported before the result', kinds.index(Message.SETFEEPCT) < kinds.index(Message.RESULT))
    h.check('outcome', r[0] == {'reverts': 32, 'service error': 3, 'out of step': 10, 'returns': 0}.get(ends, 1))
    # the next invocation starts from zero again
    seen2 = []
    Prog.run = lambda s: seen2.append(s.get_fee_sharing_proportion())
    r2 = w.invoke('run', costs={})
    h.check('next invocation starts at zero', And(len(seen2) == 1, seen2[0] == 0))
    h.check('nothing more is reported', len(w.node.sent(Message.SETFEEPCT)) == len(sent))


@unit('C20', FEE)
def fee_proportion_not_an_integer(h):
    """a value that is not an integer is refused, and the invocation goes on with the former value"""
    w = World(h)
    first = h.int('pct', near=(0, 100))
    h.assume(And(first >= 0, first <= 100))
    bad = h.choose('value', [0.5, 50.0, 0.0, 100.5, -0.5, float('nan'), float('inf'), '7', b'7', None, [7], (7,), USER])
    again = h.choose('again', [False, True])
    seen = []

    def run(s):
        s.set_fee_sharing_proportion(first)
        try:
            s.set_fee_sharing_proportion(bad)
            seen.append('set')
        except (Exception, X.IconServiceBaseException):
            seen.append('refused')
        seen.append(s.get_fee_sharing_proportion())
        if again:
            s.set_fee_sharing_proportion(first)
        return 1
    Prog.run = run
    r = w.invoke('run', costs={})
    if not one_result(h, w, r):
        return
    h.check('refused', seen[0] == 'refused')
    h.check('the former value stays', seen[1] == first)
    h.check('the invocation succeeds', r[0] == 0)
    sent = w.node.sent(Message.SETFEEPCT)
    if first == 0:
        h.check('zero is not reported', len(sent) == 0)
    else:
        h.check('the former value is reported once', And(len(sent) == 1, sent[0] == first))


@unit('C20', 'pyexec.ipc.proxy:ServiceManagerProxy.set_fee_proportion')
def fee_proportion_message(h):
    """the connection itself refuses out-of-range values"""
    w = World(h)
    p = h.int('pct', near=(0, 100))
    try:
        w.proxy.set_fee_proportion(p)
        ok = True
    except Exception:
        ok = False
    sent = w.node.sent(Message.SETFEEPCT)
    if ok:
        h.check('in range', And(p >= 0, p <= 100))
        h.check('one message with the value', And(len(sent) == 1, sent[0] == p))
    else:
        h.check('out of range', Or(p < 0, p > 100))
        h.check('nothing is sent', len(sent) == 0)
