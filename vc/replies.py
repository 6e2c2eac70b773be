"""C15: replies are matched to requests in order."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, Prog, Score, Message, Address, EOA, CON, OTHER, USER, SELF, outcome, make_proxy, wire, eventlog,
                    addr_bytes)
from vc.outcome import one_result, next_works
from pyexec import pyexec as px
from pyexec.base import exception as X
from pyexec.iconscore.icon_container_db import ArrayDB, VarDB, DictDB

PX = ('pyexec.ipc.proxy:ServiceManagerProxy.set_value pyexec.ipc.proxy:ServiceManagerProxy.handle_set_values '
      'pyexec.ipc.proxy:ServiceManagerProxy.__handle_set_values '
      'pyexec.ipc.proxy:ServiceManagerProxy.send_and_receive pyexec.ipc.proxy:ServiceManagerProxy.get_value '
      'pyexec.ipc.proxy:ServiceManagerProxy.contains pyexec.ipc.proxy:ServiceManagerProxy.get_info '
      'pyexec.ipc.proxy:ServiceManagerProxy.get_balance ')


class EvScore(Score):
    @eventlog
    def Ev(self, a: int):
        pass


class Boom(Exception):
    pass


class Wire:
    """a FIFO peer: the n-th request that has a reply gets the n-th answer"""

    def __init__(self, h, sure=()):
        self.h = h
        self.sure = sure         # answers that are present
        self.sent = []
        self.replies = []
        self.answers = []        # all answers, in the order of the requests
        self.pending = 0         # unread replies to writes
        self.most = 0
        self.starved = 0
        self.kind = None         # replaces the kind of a reply: (position, kind)

    def send(self, msg, data):
        h = self.h
        self.sent.append((msg, data))
        i = len(self.answers)
        if msg == Message.SETVALUE:
            if not data[1] & 2:
                return
            a = [True, h.int(f'old{i}', 1)] if i in self.sure or h.bool(f'has{i}') else [False, 0]
            self.pending += 1
        elif msg == Message.GETVALUE:
            a = [True, h.bytes(f'value{i}')] if h.bool(f'has{i}') else [False, None]
        elif msg == Message.CONTAINS:
            a = [h.bool(f'yes{i}'), h.int(f'count{i}', 0), h.int(f'size{i}', 0)]
        elif msg == Message.GETBALANCE:
            a = spec.I2B(h.int(f'balance{i}'))
        elif msg == Message.GETINFO:
            a = wire([h.int(f'info{i}')])
        else:
            return
        self.answers.append(a)
        k = msg if self.kind is None or self.kind[0] != i else self.kind[1]
        self.replies.append((k, a))

    def receive(self):
        if self.pending > self.most:
            self.most = self.pending
        if not self.replies:
            self.starved += 1
            raise RuntimeError('nothing to read')
        m = self.replies.pop(0)
        if m[0] == Message.SETVALUE:
            self.pending -= 1
        return m


class Run:
    """requests, and what came back for each of them"""

    def __init__(self, h, drains=False, raising=None, sure=()):
        self.h = h
        self.w = Wire(h, sure)
        self.p = make_proxy(self.w)
        self.p.set_codec(px.EECodec())
        self.got = {}             # position of the request -> what was delivered
        self.size = {}
        self.drains, self.raising = drains, raising

    def handler(self, i):
        def cb(has, old, new):
            self.h.check('delivered once', i not in self.got)
            self.got[i] = (has, old, new)
            if self.raising == i:
                raise Boom()
            if self.drains:
                self.p.handle_set_values()
        return cb

    def do(self, op):
        """answers False when it raised Boom"""
        h, w = self.h, self.w
        i = len(w.answers)
        try:
            if op == 'set':
                v = h.bytes(f'new{i}', lo=1)
                self.size[i] = len(v)
                self.p.set_value(b'k', v, self.handler(i))
            elif op == 'delete':
                self.size[i] = 0
                self.p.set_value(b'k', None, self.handler(i))
            elif op == 'plain':
                self.p.set_value(b'k', b'v', None)
            elif op == 'drain':
                n = w.pending
                h.check('tells whether there were any', self.p.handle_set_values() == (n > 0))
                h.check('all are handled', w.pending == 0)
            elif op == 'get':
                self.got[i] = self.p.get_value(b'k')
            elif op == 'contains':
                self.got[i] = self.p.contains(b'p', b'v', 9)
            elif op == 'balance':
                self.got[i] = self.p.get_balance(USER)
            elif op == 'info':
                self.got[i] = self.p.get_info()
            elif op == 'fee':
                self.p.set_fee_proportion(50)
            elif op == 'event':
                self.p.send_event(['E(int)'], [1])
            elif op == 'log':
                self.p.log(1, 'text')
        except Boom:
            return False
        return True

    def check(self, whole=True):
        """everything delivered belongs to its request"""
        h, w = self.h, self.w
        j = 0
        for m, d in w.sent:
            if m in (Message.EVENT, Message.LOG, Message.SETFEEPCT) or (m == Message.SETVALUE and not d[1] & 2):
                continue
            a = w.answers[j]
            if j in self.got:
                g = self.got[j]
                if m == Message.SETVALUE:
                    h.check('old size of its own', And(g[0] is True, g[1] == a[1], g[2] == self.size[j]) if a[0] else
                            spec.same(g, (False, 0, 0)))
                elif m == Message.GETVALUE:
                    h.check('value of its own', spec.same(g, a[1]))
                elif m == Message.CONTAINS:
                    h.check('answer of its own', spec.same(list(g), a))
                elif m == Message.GETBALANCE:
                    h.check('balance of its own', spec.I2B(g) == a)
                else:
                    h.check('info of its own', spec.same(wire(g), a))
            elif whole:
                h.check('delivered', False)
            j += 1
        h.check('never reads a reply that does not come', w.starved == 0)
        h.check('at most five unanswered writes', w.most <= 6 and w.pending <= 5)


ASIDE = ['plain', 'fee', 'event', 'log']        # have no reply
OPS = ['set', 'delete', 'plain', 'fee', 'event', 'log', 'drain', 'get', 'contains', 'balance', 'info']


@unit('C15', PX)
def reply_step(h):
    """any number of unanswered writes, then one request of any kind, then
    another, then all is drained"""
    r = Run(h, drains=h.choose('handlers drain', [False, True]), sure=(1, 2, 3))
    k = h.choose('unanswered', [0, 1, 2, 3, 4, 5])
    for i in range(k):
        r.do('set' if i % 2 else 'delete')
    h.check('writes do not wait', And(r.w.pending == k, len(r.got) == 0))
    op = h.choose('op', OPS)
    n = len(r.got)
    r.do(op)
    if op in ASIDE:
        h.check('nothing is read for a request without a reply', And(r.w.pending == k, len(r.got) == n))
    r.check(False)
    r.do(h.choose('op2', ['set', 'delete', 'event', 'drain', 'get', 'contains', 'info'] if op not in ASIDE else
                  ['set', 'get', 'drain']))
    r.check(False)
    r.do('drain')
    r.check()


@unit('C15', PX)
def reply_raising(h):
    """a handler fails: its reply is consumed, the others are delivered later"""
    k = h.choose('unanswered', [1, 2, 3, 5])
    bad = h.choose('failing', list(range(k)))
    r = Run(h, drains=h.choose('handlers drain', [False, True]), raising=bad, sure=(1, 2, 3))
    for i in range(k):
        r.do('set' if i % 2 else 'delete')
    op = h.choose('op', ['drain', 'get', 'contains', 'balance', 'set', 'info'])
    ok = r.do(op)
    n = len(r.w.sent)
    if op == 'set':
        # only the oldest is handled, and only if there were five
        h.check('fails when its handler fails', ok == (not (k == 5 and (bad == 0 or r.drains))))
    else:
        h.check('the failure is passed on', not ok)
        h.check('no request was sent', n == k)
    r.check(False)
    while r.w.pending:
        before = r.w.pending
        r.do('drain')
        h.check('progress', r.w.pending < before)
        if r.w.pending >= before:
            return
    r.do('get')
    r.check()


@unit('C15', PX)
def reply_many(h):
    """more writes than may be unanswered"""
    r = Run(h, drains=h.choose('handlers drain', [False, True]), sure=(1, 2, 3, 5, 6))
    n = h.choose('writes', [6, 7, 8])
    for i in range(n):
        r.do('set' if i % 3 else 'delete')
        h.check('at most five unanswered writes', r.w.pending <= 5)
        h.check('oldest first', len(r.got) == i + 1 - r.w.pending)
    if not r.drains:
        h.check('five are left', r.w.pending == 5)
    r.do('get')
    h.check('all are settled', r.w.pending == 0)
    r.check()


@unit('C15', PX)
def reply_wrong_kind(h):
    """a reply of another kind is an error"""
    op = h.choose('op', ['get', 'contains', 'balance', 'info', 'drain'])
    k = h.choose('unanswered', [1, 2] if op == 'drain' else [0, 1])
    r = Run(h)
    right = {'get': Message.GETVALUE, 'contains': Message.CONTAINS, 'balance': Message.GETBALANCE,
             'info': Message.GETINFO, 'drain': Message.SETVALUE}[op]
    kind = h.int('kind', 0, 20)
    h.assume(Not(kind == right))
    at = 0 if op == 'drain' else k
    r.w.kind = (at, kind)
    for i in range(k):
        r.do('delete')
    o = outcome(r.do, op)
    h.check('an error', o[0] == 'raise')
    h.check('not taken as the answer', at not in r.got)


@unit('C15', PX + 'pyexec.ipc.proxy:ServiceManagerProxy.__handle_invoke', cost=4)
def reply_execution(h):
    """through the executor: many writes, then a read; nothing is left when
    the result is sent, whatever the limit"""
    w = World(h, EvScore)
    n = h.choose('writes', [4, 6, 7])
    last = h.choose('then', ['get', 'nothing', 'balance', 'fee', 'event', 'failed call'])
    fee = h.int('fee', 0, 10)
    limit = h.int('limit', 0)
    w.node.initial = lambda k: h.bytes('old', lo=1, hi=100)
    w.node.balance = lambda a: h.int('balance')
    box = []

    def run(s):
        for i in range(n):
            box.append(outcome(VarDB(i, s.db, bytes).remove))
        if last == 'get':
            box.append(outcome(VarDB('y', s.db, bytes).get))
        elif last == 'balance':
            box.append(outcome(s.icx.get_balance, USER))
        elif last == 'fee':
            box.append(outcome(s.set_fee_sharing_proportion, 50))
        elif last == 'event':
            box.append(outcome(s.Ev, 1))
        elif last == 'failed call':
            box.append(outcome(s.call, OTHER, 'x', {}))
        return 1
    Prog.run = run
    w.node.on_call = lambda n, data: n.replies.append((Message.RESULT, [32, b'', (0x03, b'no')]))
    r = w.invoke('run', limit=limit, costs={'schema': 1, 'delete': fee})
    h.check('nothing is unread when the result is sent', w.node.at_result == [0])
    h.check('at most five unanswered writes', w.node.max_pending <= 6)
    if not one_result(h, w, r):
        return
    total = 0
    for k, v in w.node.init[:n]:
        total = total + fee * len(v)
    if total <= limit:
        h.check('all done', And(r[0] == 0, r[1] == total))
        for o in box[:n]:
            h.check('no failure', o[0] == 'ok')
        if len(box) > n:
            h.check('as answered', box[n][0] == ('raise' if last == 'failed call' else 'ok'))
        if last == 'get':
            h.check('value of its own', box[-1][1] == w.node.init[n][1])
    next_works(h, w)
