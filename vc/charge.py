"""C08: state access is charged by what it does."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff

from vc.lib import World, Prog, Message
from vc.store import outcome
from pyexec.iconscore.icon_container_db import ArrayDB, VarDB
from pyexec.iconscore.icon_score_step import IconScoreStepCounter, OutOfStepException, StepType

DB = ('pyexec.database.db:ContextDatabase.get pyexec.database.db:ContextDatabase.put '
      'pyexec.database.db:ContextDatabase.delete pyexec.database.db:ContextDatabase.__delete_handler '
      'pyexec.database.db:ContextDatabase.__refund_handler pyexec.database.db:ContextDatabase._charge_step_get '
      'pyexec.database.db:ContextDatabase._charge_step_set '
      'pyexec.iconscore.icon_score_step:IconScoreStepCounter.apply_step '
      'pyexec.iconscore.icon_score_step:IconScoreStepCounter.consume_step '
      'pyexec.iconscore.icon_score_step:IconScoreStepCounter.refund_step '
      'pyexec.iconscore.icon_score_step:IconScoreStepCounter.add_step '
      'pyexec.ipc.proxy:ServiceManagerProxy.handle_set_values '
      'pyexec.ipc.proxy:ServiceManagerProxy.__handle_set_values '
      'pyexec.ipc.proxy:ServiceManagerProxy.send_and_receive pyexec.ipc.proxy:ServiceManagerProxy.set_value '
      'pyexec.ipc.proxy:ServiceManagerProxy.get_value')


class Table:
    """a cost table of either schema; a replacement is never dearer than a
    write"""

    def __init__(self, h, schema):
        self.schema = schema
        names = (['get', 'set', 'replace', 'delete'] if schema == 0 else
                 ['getBase', 'get', 'setBase', 'set', 'deleteBase', 'delete'])
        c = {}
        for n in names:
            c[n] = h.int(n, 0, 10 ** 6) if n != 'delete' else h.int(n, -10 ** 6, 10 ** 6 if schema == 0 else 0)
        h.assume(c['replace'] <= c['set'] if schema == 0 else c['deleteBase'] <= c['setBase'])
        self.c = c
        self.costs = dict(c) if schema == 0 else dict(c, schema=schema)

    def get(self, n, count=1):
        c = self.c
        return c['get'] * n if self.schema == 0 else c['getBase'] * count + c['get'] * n

    def set(self, n):
        c = self.c
        return c['set'] * n if self.schema == 0 else c['setBase'] + c['set'] * n

    def refund(self, new, old):
        """what a replacement changes; not positive"""
        c = self.c
        if self.schema == 0:
            return (c['replace'] - c['set']) * new
        return (c['setBase'] + c['deleteBase']) // 2 - c['setBase'] + c['delete'] * old

    def delete(self, n):
        c = self.c
        return c['delete'] * n if self.schema == 0 else c['deleteBase'] + c['delete'] * n


class State:
    """reference: what is stored under the two names"""

    def __init__(self, h, w):
        self.h, self.w = h, w
        self.size = {}
        self.keys = {}

        def initial(k):
            if h.bool('present'):
                return h.bytes('old', lo=1, hi=10 ** 6 if h.symbolic else 300)
            return None
        w.node.initial = initial


def sequence(h, schema, n, ops, keys=('a', 'b')):
    w = World(h)
    t = Table(h, schema)
    limit = h.int('limit', 0)
    State(h, w)
    plan = []
    for i in range(n):
        op = h.choose(f'op{i}', ops)
        k = keys[0] if i == 0 else h.choose(f'key{i}', keys)
        plan.append((op, k, h.bytes(f'v{i}', lo=1, hi=10 ** 6 if h.symbolic else 300) if op == 'set' else b''))
    done = []

    def run(s):
        for op, k, v in plan:
            d = VarDB(k, s.db, bytes)
            if op == 'get':
                d.get()
            elif op == 'del':
                d.remove()
            else:
                d.set(v)
            done.append(op)
        return 1
    Prog.run = run
    r = w.invoke('run', limit=limit, costs=t.costs)
    h.check('one result', r is not None)
    if r is None:
        return
    # the reference: charges in program order, each with its refund
    size = {}
    node = w.node
    total = 0
    within = [True]
    init = {}
    for (op, k, v), dummy in zip(plan, range(n)):
        if k not in size:
            # what the node holds: found by the name of the variable
            hk = spec.SHA3(spec.cat(b'\x02', spec.RLP(spec.UTF8(k))))
            size[k] = (False, 0)
            known = False
            for a, b in node.init:
                if a == hk:
                    size[k] = (b is not None, 0 if b is None else len(b))
                    known = True
                    break
            if not known:
                break        # never reached
        has, old = size[k]
        if op == 'get':
            total = total + t.get(old)
        elif op == 'set':
            total = total + t.set(len(v)) + (t.refund(len(v), old) if has else 0)
            size[k] = (True, len(v))
        else:
            total = total + (t.delete(old) if has else 0)
            size[k] = (False, 0)
        within.append(total <= limit)
    complete = len(within) == n + 1
    ok = And(*within)
    if r[0] == 0:
        h.check('everything was done', And(complete, len(done) == n))
        h.check('steps are the sum of the charges', r[1] == total)
        h.check('within the limit', total <= limit)
    else:
        h.check('out of step', r[0] == 10)
        h.check('the whole limit is used', r[1] == limit)
        h.check('only if the charges do not fit', Not(And(ok, complete)))
    sent = w.node.sent(Message.SETVALUE)
    nset = len([x for x in done if x != 'get'])
    h.check('writes not paid for are not sent', Or(len(sent) == nset,
                                                   And(len(sent) == nset + 1, len(done) < n, plan[len(done)][0] != 'get')
                                                   if len(done) < n else False))
    if len(done) < n and plan[len(done)][0] == 'set' and len(sent) == nset + 1:
        # sent, then a removal sent earlier could not be paid for
        h.check('sent only after it was paid', 'del' in [p[0] for p in plan[:len(done) + 1]])


def make(schema):
    @unit('C08', DB, name=f'charge_one_v{schema}')
    def charge_one(h):
        """any single access, any costs"""
        sequence(h, schema, 1, ['get', 'set', 'del', 'empty'])

    @unit('C08', DB, name=f'charge_two_v{schema}', cost=3, budget=200)
    def charge_two(h):
        sequence(h, schema, 2, ['get', 'set', 'del'])


for _s in (0, 1):
    make(_s)


@unit('C08', 'pyexec.database.db:ContextDatabase.contains pyexec.ipc.proxy:ServiceManagerProxy.contains '
             'pyexec.iconscore.icon_score_step:IconScoreStepCounter.step_remained')
def charge_search(h):
    """a search pays for the values the node has read"""
    w = World(h)
    t = Table(h, h.choose('schema', [0, 1]))
    limit = h.int('limit', 0)
    cnt, size = h.int('cnt', 1, 10 ** 6), h.int('size', 0, 10 ** 9)
    n = h.int('n', 1, 255)
    w.node.initial = lambda k: spec.I2B(n)
    w.node.on_contains = lambda d: [True, cnt, size]
    box = []

    def run(s):
        box.append(b'x' in ArrayDB('a', s.db, bytes))
        return 1
    Prog.run = run
    r = w.invoke('run', limit=limit, costs=t.costs)
    h.check('one result', r is not None)
    first = t.get(len(spec.I2B(n)))
    total = first + t.get(size, cnt)
    h.check('fails iff it does not fit', Iff(r[0] == 0, total <= limit))
    h.check('steps', Or(And(r[0] == 0, r[1] == total), And(r[0] == 10, r[1] == limit)))
    sent = w.node.sent(Message.CONTAINS)
    if len(sent) == 1:
        h.check('the steps that are left', sent[0][2] == limit - first)
    else:
        h.check('not asked only if the size could not be paid', first > limit)


@unit('C08', DB)
def charge_query(h):
    """reads are charged in queries alike"""
    w = World(h)
    t = Table(h, h.choose('schema', [0, 1]))
    limit = h.int('limit', 0)
    old = h.bytes('old', lo=1, hi=10 ** 6 if h.symbolic else 300)
    had = True if h.bool('had') else False
    w.node.initial = lambda k: old if had else None
    Prog.run = lambda s: VarDB('x', s.db, bytes).get()
    r = w.invoke('peek', query=True, limit=limit, costs=t.costs)
    total = t.get(len(old) if had else 0)
    h.check('fails iff it does not fit', Iff(r[0] == 0, total <= limit))
    h.check('steps', Or(And(r[0] == 0, r[1] == total), And(r[0] == 10, r[1] == limit)))


class Pending:
    """an unanswered write with the effect that the contract of its handler
    gives it: a refund takes `a` <= 0 off the used steps; a removal charges
    any `a`; nothing stored before is a refund of zero"""

    def __init__(self, h, w, i):
        self.kind = h.choose(f'p{i}', ['set', 'del'])
        self.c = h.int(f'c{i}', 0, 10 ** 12) if self.kind == 'set' else 0
        self.a = h.int(f'a{i}', None if self.kind == 'del' else -10 ** 12, 0 if self.kind == 'set' else 10 ** 12)
        self.w = w

    def send(self, s):
        counter = s._context.step_counter
        counter.add_step(self.c)

        def cb(has, old, new):
            if self.kind == 'set':
                counter.add_step(self.a)
            else:
                counter.consume_step(StepType.DELETE, self.a)
        self.w.proxy.set_value(b'k', b'v', cb)


class Real:
    """the same by a real access to the state"""

    def __init__(self, h, w, t, i, hi):
        self.kind = h.choose(f'p{i}', ['set', 'del'])
        self.v = h.bytes(f'w{i}', lo=1, hi=hi)
        self.c = t.set(len(self.v)) if self.kind == 'set' else 0
        self.t, self.w, self.i = t, w, i

    def send(self, s):
        d = VarDB(self.i, s.db, bytes)
        d.remove() if self.kind == 'del' else d.set(self.v)

    @property
    def a(self):
        v = self.w.node.init[self.i][1]
        if v is None:
            return 0
        return self.t.refund(len(self.v), len(v)) if self.kind == 'set' else self.t.delete(len(v))


def step(h, schema, op, ghost, lo, most):
    """the inductive step: any number of unanswered writes and removals, any
    steps used, then one more access, then the end of the invocation"""
    w = World(h)
    t = Table(h, schema)
    limit = h.int('limit', 0)
    before = h.int('before', 0)
    k = h.choose('unanswered', list(range(lo, most + 1)))
    hi = 10 ** 6 if h.symbolic else 300
    w.node.initial = lambda key: h.bytes('old', lo=1, hi=hi) if ghost and key == b'k' or h.bool('present') else None
    plan = [Pending(h, w, i) if ghost else Real(h, w, t, i, hi) for i in range(k)]
    new = h.bytes('new', lo=1, hi=hi)
    used = before
    for p in plan:
        used = used + p.c
    h.assume(used <= limit)
    seen = {}

    def run(s):
        counter = s._context.step_counter
        counter.add_step(before)
        for p in plan:
            p.send(s)
        seen['waiting'] = len(w.node.replies)
        seen['used'] = counter.step_used
        seen['first'] = len(w.node.init)
        d = VarDB('x', s.db, bytes)
        if op == 'get':
            d.get()
        elif op == 'set':
            d.set(new)
        elif op == 'del':
            d.remove()
        elif op == 'empty':
            d.set(b'')      # the node stores no empty values
        seen['after'] = counter.step_used
        seen['unread'] = len(w.node.replies)
        return 1
    Prog.run = run
    r = w.invoke('run', limit=limit, costs=t.costs)
    h.check('one result', r is not None)
    if r is None:
        return
    h.check('writes do not wait', And(seen['waiting'] == k, seen['used'] == used))
    adj = [p.a for p in plan]
    total = before
    within = []
    for p, a in zip(plan, adj):
        total = total + p.c + a
        within.append(total <= limit)
    if op != 'end':
        reached = w.node.init[seen['first']:]
        if reached:
            v = reached[0][1]
            n = 0 if v is None else len(v)
            c = a = 0
            if op == 'get':
                c = t.get(n)
            elif op == 'set':
                c = t.set(len(new))
                a = 0 if v is None else t.refund(len(new), n)
            elif v is not None:
                a = t.delete(n)
            adj.append(a)
            total = total + c + a
            within.append(total <= limit)
        else:
            within.append(False)
    if 'after' in seen:
        # what was paid is what the settled accesses cost
        rest = 0
        for a in adj[len(adj) - seen['unread']:] if seen['unread'] else []:
            rest = rest + a
        h.check('paid after the access', seen['after'] + rest == total)
        h.check('within the limit after the access', seen['after'] <= limit)
    if r[0] == 0:
        h.check('steps are the sum of the charges', r[1] == total)
        h.check('within the limit', total <= limit)
    else:
        h.check('out of step', r[0] == 10)
        h.check('the whole limit is used', r[1] == limit)
        h.check('only if the charges do not fit', Not(And(*within)))


def make_step(schema, op):
    @unit('C08', DB, name=f'charge_real_{op}_v{schema}', cost=6, budget=200)
    def charge_real(h):
        step(h, schema, op, False, 0, 2)

    @unit('C08', DB, name=f'charge_step_{op}_v{schema}', cost=9, budget=300)
    def charge_step(h):
        step(h, schema, op, True, 0, 5)


for _s in (0, 1):
    for _o in ('get', 'set', 'del', 'empty', 'end'):
        make_step(_s, _o)


@unit('C08', DB)
def charge_handler(h):
    """the contract of the handlers, for any steps used and any refunds
    behind: a replacement adds its refund, a removal is charged like any
    other charge, and nothing happens when there was no value"""
    w = World(h)
    t = Table(h, h.choose('schema', [0, 1]))
    limit = h.int('limit', 0)
    before = h.int('before', 0)
    h.assume(And(before <= limit, t.set(1) <= limit))
    op = h.choose('op', ['set', 'del'])
    behind = [h.int(f'b{i}', -10 ** 9, 0) for i in range(h.choose('behind', [0, 1, 2]))]
    has = True if h.bool('has') else False
    old, new = h.int('old', 1, 10 ** 6), h.int('new', 1, 10 ** 6)
    got = []
    w.engine.set_value = lambda k, v, cb=None: got.append(cb)
    cur = []

    def drain():
        if not cur or not cur[0][1]:
            return False
        c, rest = cur[0]
        c.add_step(rest.pop(0))
        return True
    w.engine.handle_set_values = drain

    def run(s):
        c = s._context.step_counter
        d = VarDB('x', s.db, bytes)
        d.remove() if op == 'del' else d.set(b'v')
        c.add_step(before - c.step_used)
        cur.append((c, list(behind)))
        o = outcome(got[0], has, old if has else 0, new if has else 0)
        res = (o[0], c.step_used, len(cur[0][1]))
        cur.clear()
        # the reference counter
        q = IconScoreStepCounter(t.costs, limit, drain)
        q.add_step(before)
        cur.append((q, list(behind)))
        p = ('ok', None)
        if has:
            p = outcome(q.add_step, t.refund(new, old)) if op == 'set' else \
                outcome(q.consume_step, StepType.DELETE, t.delete(old))
        h.check('same outcome', res[0] == p[0])
        h.check('same steps', res[1] == q.step_used)
        h.check('same refunds taken', res[2] == len(cur[0][1]))
        if o[0] == 'raise':
            h.check('out of step', And(isinstance(o[1], OutOfStepException), isinstance(p[1], OutOfStepException)))
        cur.clear()
        return 1
    Prog.run = run
    w.invoke('run', limit=limit, costs=t.costs)
    h.check('ran', len(got) == 1)
