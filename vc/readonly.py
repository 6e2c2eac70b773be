"""C10: read-only execution changes nothing."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, Prog, Score, Message, Address, EOA, CON, OTHER, USER, SELF, outcome, eventlog, external,
                    payable, programs, nested, ENDS, end)
from vc.outcome import one_result, next_works
from pyexec.base import exception as X
from pyexec.iconscore.icon_container_db import ArrayDB, VarDB, DictDB
from pyexec.iconscore.icon_score_base2 import InterfaceScore

RO = ('pyexec.database.db:_is_db_writable_on_context pyexec.database.db:ContextDatabase.put '
      'pyexec.database.db:ContextDatabase.delete pyexec.ipc.proxy:ServiceManagerProxy.set_value '
      'pyexec.ipc.proxy:ServiceManagerProxy.__handle_invoke pyexec.ipc.proxy:ServiceManagerProxy.send_event '
      'pyexec.iconscore.icon_score_eventlog:EventLogEmitter.emit_event_log '
      'pyexec.iconscore.icon_score_context:IconScoreContext.readonly '
      'pyexec.iconscore.icon_score_context:IconScoreContext.set_func_type_by_icon_score '
      'pyexec.iconscore.icon_score_base:IconScoreBase.__is_func_readonly')


class RoScore(Score):
    @eventlog(indexed=1)
    def Ev(self, a: int):
        pass

    @external(readonly=True)
    def view2(self):
        return Prog.run(self)

    @external
    def write2(self):
        return Prog.run(self)


OPS = ['set', 'set empty', 'remove', 'dict set', 'dict del', 'dict remove', 'nested dict set', 'array put',
       'array set', 'array pop', 'raw put', 'raw put empty', 'raw delete', 'raw put in', 'raw delete in', 'event']
WRITES = (Message.SETVALUE, Message.EVENT, Message.SETFEEPCT)


def attempt(h, s, op, v, b):
    db = s.db
    if op == 'set':
        return outcome(VarDB('x', db, int).set, v)
    if op == 'set empty':
        return outcome(VarDB('x', db, bytes).set, b'')
    if op == 'remove':
        return outcome(VarDB('x', db, int).remove)
    if op == 'dict set':
        return outcome(DictDB('x', db, bytes).__setitem__, v, b)
    if op == 'dict del':
        return outcome(DictDB('x', db, bytes).__delitem__, v)
    if op == 'dict remove':
        return outcome(DictDB('x', db, bytes).remove, v)
    if op == 'nested dict set':
        return outcome(DictDB('x', db, bytes, 2)[v].__setitem__, v, b)
    if op == 'array put':
        return outcome(ArrayDB('x', db, bytes).put, b)
    if op == 'array set':
        return outcome(ArrayDB('x', db, bytes).__setitem__, 0, b)
    if op == 'array pop':
        return outcome(ArrayDB('x', db, bytes).pop)
    if op in ('raw put in', 'raw delete in'):
        db = db.get_sub_db(b'in')
    if op in ('raw put', 'raw put in'):
        return outcome(db.put, b'key', b)
    if op == 'raw put empty':
        return outcome(db.put, None, b'')
    if op in ('raw delete', 'raw delete in'):
        return outcome(db.delete, b)
    return outcome(s.Ev, v)


def size_three(w):
    """the array holds three elements, everything else is arbitrary"""
    w.node.initial = lambda k: b'\x03'


def refused(h, w, o):
    h.check('refused with an error', And(o[0] == 'raise', isinstance(o[1], X.IconServiceBaseException)))
    h.check('nothing is written', len(w.node.sent(*WRITES)) == 0)


@unit('C10', RO)
def readonly_refused(h):
    """one attempt in a read-only execution"""
    w = World(h, RoScore)
    size_three(w)
    mode, method = h.choose('mode', [('query', 'run'), ('query', 'peek'), ('query', 'pay'), ('query', 'fallback'),
                                     ('query', 'on_install'), ('query', 'write2'), ('tx', 'peek'), ('tx', 'view2')])
    op = h.choose('op', OPS)
    v, b = h.int('v'), h.bytes('b', lo=1)
    box = []

    def run(s):
        box.append(attempt(h, s, op, v, b))
        return 1
    Prog.run = run
    r = w.invoke(method, query=mode == 'query', limit=h.int('limit', 10 ** 6), costs={})
    if not one_result(h, w, r):
        return
    refused(h, w, box[0])
    h.check('the caller goes on', And(r[0] == 0, r[2] == 1))


@unit('C10', RO)
def readonly_uncaught(h):
    """a refused attempt that is not caught fails the execution"""
    w = World(h, RoScore)
    size_three(w)
    mode, method = h.choose('mode', [('query', 'run'), ('tx', 'peek')])
    op = h.choose('op', OPS)
    v, b = h.int('v'), h.bytes('b', lo=1)

    def run(s):
        o = attempt(h, s, op, v, b)
        if o[0] == 'raise':
            raise o[1]
        return 1
    Prog.run = run
    r = w.invoke(method, query=mode == 'query', costs={})
    if not one_result(h, w, r):
        return
    h.check('fails', r[0] == (5 if op == 'event' else 9))
    h.check('nothing is written', len(w.node.sent(*WRITES)) == 0)
    # a following transaction can write
    Prog.run = lambda s: attempt(h, s, op, v, b)[0]
    r = w.invoke('run', costs={})
    h.check('next one can write', And(r is not None, r[2] == 'ok', len(w.node.sent(*WRITES)) > 0))


@unit('C10 C20', RO)
def readonly_fee(h):
    """no fee setting in a query"""
    w = World(h, RoScore)
    method = h.choose('method', ['run', 'peek', 'pay'])
    p = h.int('p', near=(0, 100))
    box = []
    Prog.run = lambda s: box.append(outcome(s.set_fee_sharing_proportion, p))
    r = w.invoke(method, query=True, costs={})
    if one_result(h, w, r):
        refused(h, w, box[0])


@unit('C10', 'pyexec.database.db:_is_db_writable_on_context')
def readonly_writable(h):
    """writes in a transaction are not refused"""
    w = World(h, RoScore)
    size_three(w)
    method = h.choose('method', ['run', 'pay', 'write2', 'fallback', 'on_install', 'on_update'])
    op = h.choose('op', OPS)
    v, b = h.int('v'), h.bytes('b', lo=1)
    box = []
    Prog.run = lambda s: box.append(attempt(h, s, op, v, b))
    r = w.invoke(method, costs={})
    if not one_result(h, w, r):
        return
    h.check('accepted', box[0][0] == 'ok')
    h.check('written', len(w.node.sent(*WRITES)) > 0)


ALIKE = {'view': True, '_view': False, 'view_': False, 'View': False, 'views': False, 'vie': False, 'put': False,
         '_put': True, 'put_': True, 'Put': True, 'puts': True, 'pu': True}

@unit('C10', RO)
def readonly_names(h):
    """exactly the methods declared read-only are, in a transaction; two of them called in turn"""
    methods = {}
    for n, ro in ALIKE.items():
        def m(self):
            return Prog.run(self)
        m.__name__, m.__qualname__ = n, f'Alike.{n}'
        methods[n] = (external(readonly=True) if ro else external)(m)
    w = World(h, type(RoScore)('Alike', (RoScore,), methods))
    size_three(w)
    op = h.choose('op', ['set', 'array put', 'event'])
    for i in range(2):
        name = h.choose(f'method{i}', sorted(ALIKE))
        box, before = [], len(w.node.sent(*WRITES))
        v, b = h.int(f'v{i}'), h.bytes(f'b{i}', lo=1)

        def run(s):
            box.append(attempt(h, s, op, v, b))
            return 1
        Prog.run = run
        r = w.invoke(name, limit=10 ** 6, costs={})
        if not one_result(h, w, r):
            return
        if ALIKE[name]:
            h.check('refused with an error', And(box[0][0] == 'raise', isinstance(box[0][1], X.IconServiceBaseException)))
            h.check('nothing is written', len(w.node.sent(*WRITES)) == before)
        else:
            h.check('accepted', And(box[0][0] == 'ok', len(w.node.sent(*WRITES)) > before))


@unit('C10', RO + ' pyexec.service_engine:ServiceEngine._internal_call '
      'pyexec.iconscore.icon_score_mapper:IconScoreMapper.get_icon_score')
def readonly_constructor(h):
    """an attempt made while the contract is being constructed"""
    box = []
    start = []

    class Constructed(RoScore):
        def __init__(self, db):
            super().__init__(db)
            if start:
                box.append(start[0](self))
    w = World(h, Constructed)
    size_three(w)
    mode, method = h.choose('mode', [('query', 'run'), ('query', 'peek'), ('query', 'fallback'), ('tx', 'peek'),
                                     ('tx', 'view2'), ('tx', 'run'), ('tx', 'fallback'), ('tx', 'on_install')])
    op = h.choose('op', OPS + ['fee'])
    v, b = h.int('v', near=(0, 100)), h.bytes('b', lo=1)
    uncaught = h.choose('uncaught', [False, True])

    def attempt_one(s):
        o = outcome(s.set_fee_sharing_proportion, v) if op == 'fee' else attempt(h, s, op, v, b)
        if uncaught and o[0] == 'raise':
            raise o[1]
        return o
    start.append(attempt_one)
    Prog.run = lambda s: 1
    r = w.invoke(method, query=mode == 'query', costs={})
    if not one_result(h, w, r):
        return
    ro = mode == 'query' or (method in ('peek', 'view2') and op != 'fee')
    if ro:
        h.check('nothing is written', len(w.node.sent(*WRITES)) == 0)
        if uncaught:
            h.check('fails', r[0] != 0)
        else:
            h.check('refused with an error', And(box[0][0] == 'raise', isinstance(box[0][1], X.IconServiceBaseException)))
            h.check('goes on', r[0] == 0)
    elif op != 'fee':
        h.check('written', And(r[0] == 0, len(w.node.sent(*WRITES)) > 0))
    # the next invocation has its own permission
    start.clear()
    n = len(w.node.sent(*WRITES))
    Prog.run = lambda s: attempt(h, s, 'set', v, b)[0]
    r = w.invoke('run', costs={})
    h.check('next one can write', And(r is not None, r[2] == 'ok', len(w.node.sent(*WRITES)) > n))


@unit('C10', RO)
def readonly_nested(h):
    """permissions of caller and callee, before, during and after the call"""
    w = World(h, RoScore)
    size_three(w)
    outer = h.choose('outer', [('tx', 'run'), ('tx', 'peek'), ('query', 'run')])
    inner = h.choose('inner', [('tx', 'run'), ('tx', 'peek'), ('query', 'run'), ('query', 'peek')])
    op = h.choose('op', ['set', 'remove', 'event', 'array put', 'dict set'])
    ends = h.choose('callee', ENDS[:-1])
    v, b = h.int('v'), h.bytes('b', lo=1)
    box = []
    seen = []

    def mark(o):
        box.append(o[0])
        seen.append(len(w.node.sent(*WRITES)))

    def first(s):
        mark(attempt(h, s, op, v, b))
        outcome(s.call, OTHER, inner[1], {})
        mark(attempt(h, s, op, v, b))

    def second(s):
        mark(attempt(h, s, op, v, b))
        return end(w, s, ends)
    programs(first, second)
    nested(w, w.message(inner[1], to=OTHER, query=inner[0] == 'query', costs={}))
    r = w.invoke(outer[1], query=outer[0] == 'query', costs={}, limit=10 ** 9)
    h.check('two results', len(w.node.sent(Message.RESULT)) == 2)
    h.check('three attempts', len(box) == 3)
    if len(box) != 3:
        return
    o, i = outer == ('tx', 'run'), inner == ('tx', 'run')
    h.check('the caller', (box[0] == 'ok') == o)
    h.check('the callee', (box[1] == 'ok') == i)
    h.check('the caller again', (box[2] == 'ok') == o)
    n = [seen[0] > 0, seen[1] > seen[0], seen[2] > seen[1]]
    h.check('written exactly where allowed', n == [o, i, o])


@unit('C10', RO)
def readonly_nested2(h):
    """two levels"""
    w = World(h, RoScore)
    modes = [('tx', 'run'), ('tx', 'peek'), ('query', 'run')]
    m = [h.choose(f'mode{i}', modes) for i in range(3)]
    box = []

    def prog(k):
        def run(s):
            box.append((k, outcome(VarDB('x', s.db, int).set, k)[0]))
            if k < 2:
                outcome(s.call, OTHER, m[k + 1][1], {})
            box.append((k, outcome(s.Ev, k)[0]))
        return run
    programs(prog(0), prog(1), prog(2))
    nested(w, w.message(m[1][1], to=OTHER, query=m[1][0] == 'query', costs={}),
           w.message(m[2][1], to=SELF, query=m[2][0] == 'query', costs={}))
    r = w.invoke(m[0][1], query=m[0][0] == 'query', costs={})
    h.check('six attempts', len(box) == 6)
    n = 0
    for k, o in box:
        h.check('each level keeps its own permission', (o == 'ok') == (m[k] == modes[0]))
        n += m[k] == modes[0]
    h.check('written exactly where allowed', len(w.node.sent(*WRITES)) == n)


@unit('C10', 'pyexec.ipc.proxy:ServiceManagerProxy.set_value pyexec.ipc.proxy:ServiceManagerProxy.send_event '
             'pyexec.ipc.proxy:ServiceManagerProxy.set_fee_proportion '
             'pyexec.ipc.proxy:ServiceManagerProxy.__handle_invoke')
def readonly_connection(h):
    """the connection itself sends no write while it serves a query, whatever
    the code above it does"""
    w = World(h, RoScore)
    query = h.choose('query', [False, True])
    op = h.choose('op', ['set', 'delete', 'fee', 'event'])
    k, v = h.bytes('k'), h.bytes('v')
    box = []

    def run(s):
        if op == 'set':
            box.append(outcome(w.proxy.set_value, k, v, None))
        elif op == 'delete':
            box.append(outcome(w.proxy.set_value, k, None, None))
        elif op == 'fee':
            box.append(outcome(w.proxy.set_fee_proportion, 3))
        else:
            box.append(outcome(w.proxy.send_event, *lists))
    lists = h.choose('lists', [[[v], [k]], [[v, k], []], [[v, k, v], [k]], [[], []], [[v], []]]) if op == 'event' else None
    call = h.choose('after a nested one', [None, False, True])
    if call is None:
        Prog.run = run
    else:
        def outer(s):
            outcome(s.call, OTHER, 'run', {})
            run(s)
        programs(outer, lambda s: 1)
        nested(w, w.message('run', to=OTHER, query=call, costs={}))
    w.invoke('run', query=query, costs={})
    if query:
        h.check('nothing is sent', len(w.node.sent(*WRITES)) == 0)
    else:
        h.check('sent', And(box[0][0] == 'ok', len(w.node.sent(*WRITES)) == 1))


@unit('C10', RO)
def readonly_history(h):
    """two invocations, each with nested ones: what is permitted does not
    depend on what ran before"""
    w = World(h, RoScore)
    size_three(w)
    box = []
    shapes = h.choose('shapes', [('deep', 'flat'), ('flat', 'deep'), ('flat', 'flat')])
    ends = h.choose('ends', ['returns', 'odd'])
    top = [h.choose(f'query{i}', [False, True]) for i in range(2)]
    low = [[h.choose(f'nested{i}{j}', [False, True]) for j in range(2)] for i in range(2)]

    def attempts(s, query):
        box.append((query, outcome(VarDB('x', s.db, int).set, 1)[0], outcome(s.Ev, 1)[0]))

    def prog(i, j):
        """the j-th execution under the i-th invocation; deep: 0 calls 1 calls 2, flat: 0 calls 1 and 2"""
        query = top[i] or (j > 0 and (low[i][j - 1] or (shapes[i] == 'deep' and j == 2 and low[i][0])))
        calls = ({0: 2} if shapes[i] == 'flat' else {0: 1, 1: 1}).get(j, 0)

        def run(s):
            for c in range(calls):
                outcome(s.call, OTHER, 'run', {})
                attempts(s, query)
            if calls == 0:
                attempts(s, query)
            if j > 0:
                return end(w, s, ends)
        return query, run
    for i in range(2):
        ps = [prog(i, j) for j in range(3)]
        programs(*[p[1] for p in ps])
        nested(w, w.message('run', to=OTHER, query=ps[1][0], costs={}), w.message('run', to=OTHER, query=ps[2][0], costs={}))
        before = len(w.node.sent(*WRITES))
        del box[:]
        w.invoke('run', query=top[i], costs={})
        h.check('all attempts', len(box) == (4 if shapes[i] == 'flat' else 3))
        n = 0
        for query, a, b in box:
            h.check('refused exactly in queries', And((a == 'ok') == (not query), (b == 'ok') == (not query)))
            n += 0 if query else 2
        h.check('written exactly where permitted', len(w.node.sent(*WRITES)) - before == n)
