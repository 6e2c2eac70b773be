"""The environment of the executor, as ghost state.

`Node` plays the other side of the IPC connection: it answers requests in the
order they were sent (the connection is FIFO) and records every message.  The
SCORE database is a finite map of writes over an arbitrary initial content.
Everything here is harness code: it runs symbolically (any values) and
natively (given values) alike.
"""
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from pyexec.ipc import proxy as ipc
from pyexec.base.exception import IconServiceBaseException
from pyexec.ipc.proxy import Message
from pyexec import pyexec as px
from pyexec.base.address import Address, AddressPrefix
from pyexec.database.factory import ContextDatabaseFactory
from pyexec.iconscore.icon_score_context import ContextContainer
from pyexec.iconscore.icon_score_base import IconScoreBase, external, payable, eventlog, isolated, interface
from pyexec.iconscore.icon_score_loader import IconScoreLoader
from pyexec.iconscore import icon_score_mapper
from pyexec.iconscore.icon_container_db import VarDB

EOA, CON = AddressPrefix.EOA, AddressPrefix.CONTRACT
SELF = Address(CON, b'\x01' * 20)
USER = Address(EOA, b'\x02' * 20)
OWNER = Address(EOA, b'\x03' * 20)
OTHER = Address(CON, b'\x04' * 20)
CODE = '/nonexistent/score'

V0 = {'get': 80, 'set': 320, 'replace': 80, 'delete': -240, 'eventLog': 100, 'apiCall': 10000}
V1 = {'schema': 1, 'getBase': 3000, 'get': 25, 'setBase': 10000, 'set': 320, 'deleteBase': 200, 'delete': -240,
      'logBase': 5000, 'log': 100, 'apiCall': 10000}


class NoReply(BaseException):
    """The executor waits for a message that nobody will send."""


class Node:
    def __init__(self, h):
        self.h = h
        self.log = []            # (msg, data) sent by the executor
        self.replies = []        # FIFO of messages to the executor
        self.inbox = []          # messages of the peer, delivered when idle
        self.busy = 0
        self.after = []          # continuations run when a nested RESULT arrives
        self.writes = []         # (key, value or None), oldest first
        self.init = []           # (key, value or None) found in the initial state
        self.initial = None      # callable key -> value or None
        self.on_call = None
        self.on_contains = None
        self.balance = None
        self.info = None
        self.starved = 0
        self.vlen = {}
        self.max_pending = 0     # most unanswered writes at any time
        self.at_result = []      # unread replies when a result is sent

    # -- state ------------------------------------------------------------
    def lookup(self, key):
        for i in range(len(self.writes) - 1, -1, -1):
            k, v = self.writes[i]
            if k == key:
                return v
        for k, v in self.init:
            if k == key:
                return v
        if self.initial is not None:
            v = self.initial(key)
        elif self.h.bool('st_present'):
            v = self.h.bytes('st_value', lo=1, hi=200000)
        else:
            v = None
        self.init.append((key, v))
        return v

    # -- connection ---------------------------------------------------------
    def send(self, msg, data):
        self.log.append((msg, data))
        if msg == Message.SETVALUE:
            key, flag, value = data[0], data[1], data[2]
            if flag & 2:
                old = self.lookup(key)
                if old is None:
                    self.replies.append((msg, [False, 0]))
                else:
                    self.replies.append((msg, [True, len(old)]))
            # the node stores no empty values
            if flag & 1 or len(value) == 0:
                self.writes.append((key, None))
            else:
                self.writes.append((key, value))
        elif msg == Message.GETVALUE:
            v = self.lookup(data)
            self.replies.append((msg, [v is not None, v]))
        elif msg == Message.CONTAINS:
            self.replies.append((msg, self.on_contains(data)))
        elif msg == Message.GETBALANCE:
            self.replies.append((msg, spec.I2B(self.balance(data))))
        elif msg == Message.GETINFO:
            self.replies.append((msg, wire(self.info)))
        elif msg == Message.CALL:
            self.on_call(self, data)
        elif msg == Message.GETAPI:
            self.busy -= 1
        elif msg == Message.RESULT:
            self.busy -= 1
            self.at_result.append(len(self.replies))
            if self.after:
                self.after.pop()(self, data)

    def receive(self):
        if len(self.replies) > self.max_pending:
            self.max_pending = len(self.replies)
        if len(self.replies) > 0:
            m = self.replies.pop(0)
        elif self.busy == 0 and len(self.inbox) > 0:
            m = self.inbox.pop(0)
        else:
            self.starved += 1
            raise NoReply()
        if m[0] == Message.INVOKE or m[0] == Message.GETAPI:
            self.busy += 1
        return m

    def connect(self, addr):
        pass

    def close(self):
        pass

    # -- queries about the log -------------------------------------------------
    def sent(self, *msgs):
        return [d for m, d in self.log if m in msgs]

    def kinds(self, skip=(10,)):
        return [m for m, d in self.log if m not in skip]


def wire(o):
    """Reference encoding of a typed value: [tag, payload]."""
    if o is None:
        return [0, None]
    if isinstance(o, dict):
        m = {}
        for k, v in o.items():
            m[k] = wire(v)
        return [1, m]
    if isinstance(o, (list, tuple)):
        return [2, [wire(v) for v in o]]
    if isinstance(o, bytes):
        return [3, o]
    if isinstance(o, str):
        return [4, spec.UTF8(o)]
    if isinstance(o, bool):
        return [5, b'\x01' if o else b'\x00']
    if isinstance(o, int):
        return [11, spec.I2B(o)]
    return [10, addr_bytes(o)]


def addr_bytes(a):
    return spec.cat(b'\x01' if a.prefix == CON else b'\x00', a.body)


def unwire(t):
    tag, v = t[0], t[1]
    if tag == 0:
        return None
    if tag == 1:
        m = {}
        for k, x in v.items():
            m[k] = unwire(x)
        return m
    if tag == 2:
        return [unwire(x) for x in v]
    if tag == 3:
        return v
    if tag == 4:
        return v.decode('utf-8')
    if tag == 5:
        return v == b'\x01'
    if tag == 11:
        return spec.B2I(v)
    return Address.from_bytes(v)


class Prog:
    """what the SCORE under execution does"""
    run = None
    init = None


class Score(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        if Prog.init is not None:
            Prog.init(self)

    def on_install(self) -> None:
        return Prog.run(self)

    def on_update(self) -> None:
        return Prog.run(self)

    @external
    def run(self):
        return Prog.run(self)

    @external(readonly=True)
    def peek(self):
        return Prog.run(self)

    @payable
    @external
    def pay(self):
        return Prog.run(self)

    @payable
    def fallback(self):
        return Prog.run(self)

    def hidden(self):
        return Prog.run(self)


class World:
    """One executor connected to one Node."""

    def __init__(self, h, cls=Score):
        self.h = h
        ContextDatabaseFactory.close()
        ContextContainer._clear_context()
        Prog.run = None
        Prog.init = None
        self.node = Node(h)
        self.proxy = make_proxy(self.node)
        self.engine = px.PyExecEngine(self.proxy, False)
        self.classes = {CODE: cls}
        self.loads = []
        self.env = None
        w = self

        def load(path):
            w.loads.append(path)
            return w.classes.get(path)
        IconScoreLoader.load_module = staticmethod(load)

    def message(self, method='run', params=None, limit=10 ** 12, value=0, query=False, costs=None, code=CODE,
                frm=..., to=SELF, info=None, typed=True, params_wire=None):
        frm_any, env = self.environment()
        if frm is ...:
            frm = frm_any
        inf = {'StepCosts': V1 if costs is None else costs, **env}
        if info is not None:
            inf.update(info)
        p = params_wire if params_wire is not None else wire([] if params is None else params)
        return [spec.UTF8(code), 1 if query else 0, None if frm is None else addr_bytes(frm), addr_bytes(to),
                spec.I2B(value), spec.I2B(limit), spec.UTF8(method), p, wire(inf)]

    def environment(self):
        """any sender, transaction and block"""
        if self.env is None:
            h = self.h
            self.env = Address(EOA, h.bytes('env_from', n=20)), {
                'Revision': h.int('env_revision', 0), 'C.owner': Address(EOA, h.bytes('env_owner', n=20)),
                'T.from': Address(EOA, h.bytes('env_origin', n=20)), 'T.hash': h.bytes('env_hash'),
                'T.index': h.int('env_index', 0), 'T.timestamp': h.int('env_ttime', 0), 'T.nonce': h.int('env_nonce'),
                'B.height': h.int('env_height', 0), 'B.timestamp': h.int('env_btime', 0)}
        return self.env

    def deliver(self, *messages):
        """Run the executor's message loop over the given messages."""
        for m in messages:
            self.node.inbox.append(m)
        self.node.inbox.append((Message.CLOSE, None))
        self.proxy.loop()

    def invoke(self, method='run', **k):
        """One INVOKE message; returns (status, step_used, result) or None
        when no single RESULT was sent."""
        before = len(self.node.sent(Message.RESULT))
        self.deliver((Message.INVOKE, self.message(method, **k)))
        res = self.node.sent(Message.RESULT)
        if len(res) != before + 1:
            return None
        return self.result(res[-1])

    @staticmethod
    def result(d):
        return d[0], spec.B2I(d[1]), unwire(d[2])


def make_proxy(node):
    saved = ipc.Client
    ipc.Client = lambda *a, **k: node
    try:
        return ipc.ServiceManagerProxy()
    finally:
        ipc.Client = saved


def sym_address(h, name):
    p = h.choose(name + '_kind', [EOA, CON])
    return Address(p, h.bytes(name, n=20))


def stand_in(h, name, **members):
    """a stand-in for a library object; anything it does not model makes the
    path unsupported instead of failing it"""
    class Meta(type):
        def __getattr__(cls, attr):
            if attr.startswith('__') and attr.endswith('__'):
                raise AttributeError(attr)
            h.unsupported(f'{name}.{attr}')
    return Meta(name, (), {k: staticmethod(v) if callable(v) and not isinstance(v, type) else v
                           for k, v in members.items()})


def outcome(*a, **k):
    """call a[0]; ('ok', value) or ('raise', exception)"""
    try:
        return 'ok', a[0](*a[1:], **k)
    except BaseException as e:
        return 'raise', e


def programs(*fs):
    """the i-th invocation runs the i-th program"""
    rest = list(fs)

    def run(s):
        return rest.pop(0)(s)
    Prog.run = run


def nested(w, *messages):
    """the node answers the i-th call by running the i-th message on the same
    executor and passing its result on"""
    rest = list(messages)

    def on_call(node, data):
        node.replies.append((Message.INVOKE, rest.pop(0)))
        node.after.append(lambda n, res: n.replies.append((Message.RESULT, [res[0], res[1], res[2]])))
    w.node.on_call = on_call


def code_of(o):
    """the code of a refusal"""
    return o[1].code if o[0] == 'raise' and isinstance(o[1], IconServiceBaseException) else None


class Odd(Exception):
    """an exception whose text cannot be made"""

    def __str__(self):
        raise ValueError('no text')

    __repr__ = __str__


class Hooks:
    """values of a contract whose own code runs when they are described or taken apart"""
    error = None

    def fail(self, *a, **k):
        e = Hooks.error
        raise e('x') if e is not StopIteration else e()


def hooked(base, names):
    return type('Hooked' + base.__name__, (base,), {n: Hooks.fail for n in names})


ENDS = ['returns', 'raises', 'exits', 'odd', 'unencodable', 'settlement']


def end(w, s, how):
    """end the execution of a method of s in one of the ways above"""
    if how == 'raises':
        raise ValueError()
    if how == 'exits':
        raise SystemExit()
    if how == 'odd':
        raise Odd()
    if how == 'unencodable':
        return object()
    if how == 'settlement':
        # a reply of another kind is found when the pending writes are settled
        w.proxy.handle_set_values()
        VarDB('x', s.db, int).remove()
        if len(w.node.replies) == 1:
            w.node.replies[0] = (Message.GETVALUE, [False, None])
    return None
