"""C22: what contract code sees of the transaction, the block and the
message."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import (World, Prog, Score, Message, Address, EOA, CON, OTHER, USER, SELF, OWNER, outcome, sym_address, ENDS, end,
                    programs, nested, addr_bytes, CODE, eventlog)
from vc.outcome import one_result
from pyexec.base import exception as X
from pyexec.iconscore.icon_score_context import ContextContainer
from pyexec.iconscore import icon_score_base2 as b2
from pyexec.iconscore.icon_container_db import VarDB

CX = ('pyexec.pyexec:PyExecEngine.invoke_handler pyexec.service_engine:ServiceEngine.invoke '
      'pyexec.iconscore.icon_score_context:ContextContainer._get_context '
      'pyexec.iconscore.icon_score_context:ContextContainer._push_context '
      'pyexec.iconscore.icon_score_context:ContextContainer._pop_context '
      'pyexec.iconscore.icon_score_context:IconScoreContext.set_invoke_params '
      'pyexec.ipc.proxy:ServiceManagerProxy.__handle_invoke '
      'pyexec.base.transaction:Transaction.__init__ pyexec.base.block:Block.__init__ '
      'pyexec.base.message:Message.__init__ '
      'pyexec.iconscore.icon_score_base:IconScoreBase.__init__ '
      'pyexec.iconscore.icon_score_base:IconScoreBase.msg pyexec.iconscore.icon_score_base:IconScoreBase.tx '
      'pyexec.iconscore.icon_score_base:IconScoreBase.owner pyexec.iconscore.icon_score_base:IconScoreBase.address '
      'pyexec.iconscore.icon_score_base:IconScoreBase.block_height pyexec.iconscore.icon_score_base:IconScoreBase.now '
      'pyexec.iconscore.icon_score_base:IconScoreBase.icx pyexec.iconscore.icon_score_base:IconScoreBase.get_owner')


class Facts:
    """what the node says about one invocation"""

    def __init__(self, h, n, full=True):
        self.to = Address(CON, h.bytes(n + 'to', n=20))
        self.value = h.int(n + 'value', 0)
        self.nonce = h.int(n + 'nonce')
        self.hash = h.bytes(n + 'hash')
        self.height = h.int(n + 'height')
        if full:
            self.frm = None if h.choose(n + 'no sender', [False, True]) else sym_address(h, n + 'from')
            self.origin = None if h.choose(n + 'no origin', [False, True]) else sym_address(h, n + 'origin')
            if h.choose(n + 'no nonce', [False, True]):
                self.nonce = None
        else:
            self.frm = sym_address(h, n + 'from')
            self.origin = Address(EOA, h.bytes(n + 'origin', n=20))
        self.index = h.int(n + 'index', 0)
        self.time = h.int(n + 'time')
        self.btime = h.int(n + 'btime')
        self.owner = Address(EOA, h.bytes(n + 'owner', n=20))

    def message(self, w, method='pay', **k):
        return w.message(method, frm=self.frm, to=self.to, value=self.value, costs={}, info={
            'T.hash': self.hash, 'T.index': self.index, 'T.from': self.origin, 'T.timestamp': self.time,
            'T.nonce': self.nonce, 'B.height': self.height, 'B.timestamp': self.btime, 'C.owner': self.owner}, **k)

    def check(self, h, v):
        h.check('sender', spec.same(v['sender'], self.frm))
        h.check('coins', spec.same(v['value'], self.value))
        h.check('origin', spec.same(v['origin'], self.origin))
        h.check('transaction hash', spec.same(v['hash'], self.hash))
        h.check('index', spec.same(v['index'], self.index))
        h.check('nonce', spec.same(v['nonce'], self.nonce))
        h.check('transaction time', spec.same(v['time'], self.time))
        h.check('height', And(spec.same(v['height'], self.height), spec.same(v['height2'], self.height)))
        h.check('block time', And(spec.same(v['now'], self.btime), spec.same(v['btime'], self.btime)))
        h.check('owner', And(spec.same(v['owner'], self.owner), spec.same(v['owner2'], self.owner)))
        h.check('own address', And(spec.same(v['address'], self.to), spec.same(v['dbaddress'], self.to)))


def view(s):
    return {'sender': s.msg.sender, 'value': s.msg.value, 'origin': s.tx.origin, 'hash': s.tx.hash,
            'index': s.tx.index, 'nonce': s.tx.nonce, 'time': s.tx.timestamp, 'height': s.block_height,
            'height2': s.block.height, 'now': s.now(), 'btime': s.block.timestamp, 'owner': s.owner,
            'owner2': s.get_owner(s.address), 'address': s.address, 'dbaddress': s.db.address}


@unit('C22', CX)
def context_seen(h):
    w = World(h)
    f = Facts(h, '')
    method = h.choose('method', ['pay', 'fallback', 'run', 'peek'])
    query = h.choose('query', [False, True])
    if method in ('run', 'peek'):
        f.value = 0
    seen = []
    Prog.run = lambda s: seen.append(view(s))
    w.deliver((Message.INVOKE, f.message(w, method, query=query)))
    h.check('ran once', len(seen) == 1)
    if len(seen) == 1:
        f.check(h, seen[0])
    h.check('no context is left', ContextContainer._get_context() is None)


@unit('C22', CX)
def context_constructor(h):
    """already while the contract object is built"""
    w = World(h)
    f = Facts(h, '', False)
    seen = []
    Prog.init = lambda s: seen.append(view(s))
    Prog.run = lambda s: seen.append(view(s))
    w.deliver((Message.INVOKE, f.message(w)))
    h.check('seen twice', len(seen) == 2)
    for v in seen:
        f.check(h, v)


@unit('C22', CX)
def context_sequence(h):
    """each invocation sees its own, also after one that failed"""
    w = World(h)
    f, g = Facts(h, 'a', False), Facts(h, 'b', False)
    ends = h.choose('first', ENDS + ['unknown method', 'no contract'])
    seen = []

    def first(s):
        seen.append(view(s))
        return end(w, s, ends)

    def second(s):
        seen.append(view(s))
    m = f.message(w, 'nosuch' if ends == 'unknown method' else 'pay')
    if ends == 'no contract':
        m[0] = b'/elsewhere'
    if ends in ('unknown method', 'no contract'):
        programs(second)
        seen.append(None)
    else:
        programs(first, second)
    w.deliver((Message.INVOKE, m), (Message.INVOKE, g.message(w)))
    h.check('two results', len(w.node.sent(Message.RESULT)) == 2)
    h.check('ran', len(seen) == 2)
    if seen[0] is not None:
        f.check(h, seen[0])
    if len(seen) == 2:
        g.check(h, seen[1])
    h.check('no context is left', ContextContainer._get_context() is None)


@unit('C22 C21', CX)
def context_nested(h):
    """caller and callee, before, during and after the call; the callee may be
    the same contract"""
    w = World(h)
    f, g = Facts(h, 'a', False), Facts(h, 'b', False)
    if h.choose('same contract', [False, True]):
        g.to = f.to
    ends = h.choose('callee', ENDS)
    how = h.choose('by', ['call', 'transfer'])
    seen = []
    objs = []

    def first(s):
        icx = s.icx
        objs.append(s)
        seen.append(view(s))
        if how == 'call':
            outcome(s.call, g.to, 'pay', {}, g.value)
        else:
            outcome(icx.transfer, g.to, g.value)
        seen.append(view(s))

    def second(s):
        objs.append(s)
        seen.append(view(s))
        return end(w, s, ends)
    programs(first, second)
    nested(w, g.message(w, 'pay' if how == 'call' else 'fallback'))
    w.deliver((Message.INVOKE, f.message(w)))
    h.check('seen three times', len(seen) == 3)
    if len(seen) == 3:
        f.check(h, seen[0])
        g.check(h, seen[1])
        f.check(h, seen[2])
        h.check('an object of its own', objs[0] is not objs[1])
    h.check('no context is left', ContextContainer._get_context() is None)


class Known(Facts):
    """different data for each execution"""

    def __init__(self, i):
        self.to = Address(CON, bytes([i % 3]) * 20)
        self.value, self.nonce, self.hash = i * 5, 100 + i, bytes([i]) * 32
        self.height, self.index, self.time, self.btime = 1000 + i, i, 7000 + i, 9000 + i
        self.frm, self.origin = Address([EOA, CON][i % 2], bytes([i + 1]) * 20), Address(EOA, bytes([i + 2]) * 20)
        self.owner = Address(EOA, bytes([i + 3]) * 20)


TREES = {'chain': [[[[[[[]]]]]]], 'pairs': [[[], []], [[], []]], 'comb': [[], [[], [[], [[], []]]]], 'wide': [[]] * 12,
         'late': [[], [], [[[[]], []]]]}


@unit('C22 C21 C10', CX)
def context_deep(h):
    """calls within calls, as trees: each execution sees its own data and has
    its own permission before and after each of its calls"""
    w = World(h)
    tree = TREES[h.choose('tree', sorted(TREES))]
    ends = h.choose('leaves', ENDS)
    every = h.choose('queries', [0, 1, 2, 3, 4])
    seen, stack = [], []
    progs, messages = [], []

    def build(t, query):
        i = len(progs)
        f = Known(i)
        query = query or (every > 0 and i % every == every - 1)

        def run(s):
            seen.append((f, query, view(s), outcome(s.Ev, i)[0]))
            for c in t:
                outcome(s.call, f.to, 'pay', {})
                seen.append((f, query, view(s), outcome(VarDB('x', s.db, int).set, i)[0]))
            if not t:
                return end(w, s, ends)
            return i
        progs.append(run)
        messages.append(f.message(w, query=query))
        for c in t:
            build(c, query)
    w.classes[CODE] = EvScore
    build(tree, False)
    programs(*progs)
    nested(w, *messages[1:])
    w.deliver((Message.INVOKE, messages[0]))
    h.check('a result for each', len(w.node.sent(Message.RESULT)) == len(progs))
    h.check('seen', len(seen) == 2 * len(progs) - 1)
    for f, query, v, o in seen:
        f.check(h, v)
        h.check('its own permission', (o == 'ok') == (not query))
    h.check('no context is left', ContextContainer._get_context() is None)


class EvScore(Score):
    @eventlog(indexed=1)
    def Ev(self, a: int):
        pass


@unit('C22', CX)
def context_nested_steps(h):
    """steps and fee share of caller and callee are kept apart"""
    w = World(h)
    api, api2 = h.int('api', 0), h.int('api2', 0)
    lim2 = api2 + h.int('spare2', 0)
    lim = api * 2 + lim2 + h.int('spare', 0)
    p = h.int('p', 0, 100)
    box = []

    def first(s):
        b2.sha3_256(b'')
        s.set_fee_sharing_proportion(p)
        box.append(outcome(s.call, OTHER, 'run', {}))
        box.append(s.get_fee_sharing_proportion())
        b2.sha3_256(b'')
        return 1

    def second(s):
        box.append(s.get_fee_sharing_proportion())
        b2.sha3_256(b'')
        return 2
    programs(first, second)
    nested(w, w.message('run', to=OTHER, costs={'apiCall': api2}, limit=lim2))
    w.deliver((Message.INVOKE, w.message('run', costs={'apiCall': api}, limit=lim)))
    res = [w.result(d) for d in w.node.sent(Message.RESULT)]
    h.check('two results', len(res) == 2)
    if len(res) == 2:
        h.check('callee', And(res[0][0] == 0, res[0][1] == api2, res[0][2] == 2))
        h.check('caller', And(res[1][0] == 0, res[1][1] == api * 2 + api2, res[1][2] == 1))
        h.check('fee share', And(box[0] == 0, box[2] == p))
        sent = w.node.sent(Message.SETFEEPCT)
        if p == 0:
            h.check('zero is not reported', len(sent) == 0)
        else:
            h.check('reported by the caller only', sent == [p])


@unit('C22', 'pyexec.iconscore.icon_score_base2:Icx.get_balance '
             'pyexec.iconscore.internal_call:InternalCall.icx_get_balance '
             'pyexec.ipc.proxy:ServiceManagerProxy.get_balance pyexec.pyexec:PyExecEngine.get_balance')
def context_balance(h):
    w = World(h)
    a, b = sym_address(h, 'a'), sym_address(h, 'b')
    x, y = h.int('x'), h.int('y')
    vals = [x, y]
    asked = []

    def balance(d):
        asked.append(d)
        return vals[len(asked) - 1]
    w.node.balance = balance
    box = []

    def run(s):
        box.append(s.icx.get_balance(a))
        box.append(s.icx.get_balance(b))
    Prog.run = run
    r = w.invoke('run', costs={}, query=h.choose('query', [False, True]))
    if one_result(h, w, r):
        h.check('asked for the address given', And(len(asked) == 2, asked[0] == addr_bytes(a),
                                                   asked[1] == addr_bytes(b)))
        h.check('as the node says', And(spec.same(box[0], x), spec.same(box[1], y)))


@unit('C22', 'pyexec.iconscore.icon_score_context:ContextContainer._push_context '
             'pyexec.iconscore.icon_score_context:ContextContainer._pop_context '
             'pyexec.iconscore.icon_score_context:ContextContainer._get_context')
def context_stack(h):
    """a stack: popping restores what was there, whatever the depth"""
    n = h.choose('depth', [0, 1, 2, 3, 20, 300])
    ContextContainer._clear_context()
    cs = [object() for i in range(n + 1)]
    for i in range(n):
        ContextContainer._push_context(cs[i])
    top = ContextContainer._get_context()
    h.check('top', top is (cs[n - 1] if n else None))
    ContextContainer._push_context(cs[n])
    h.check('pushed', ContextContainer._get_context() is cs[n])
    h.check('popped', ContextContainer._pop_context() is cs[n])
    h.check('as before', ContextContainer._get_context() is top)
    if n == 0:
        o = outcome(ContextContainer._pop_context)
        h.check('nothing to pop', o[0] == 'raise')
