"""The executor between two invocations.

The proofs of the other modules speak about one invocation of an executor that
is idle.  They speak about the n-th invocation of any history if an invocation
leaves the executor as it found it.  This module decides that: everything that
is reachable from the modules of /repo and from the connection, except the
classes loaded so far, is the same after an invocation as before it, however it
ends.  If it is not, nothing is wrong yet (a cache is harmless): the unit is
reported as undecided, and the histories are only sampled (vc/wide.py).
"""
from pv.harness import unit
from pv import picture, spec

from vc.lib import (World, Prog, Score, Message, Address, EOA, CON, SELF, USER, OTHER, CODE, outcome, wire, ENDS, end,
                    eventlog, VarDB)
from vc import outcome as oc
from pyexec.iconscore.icon_container_db import ArrayDB, DictDB
from pyexec.iconscore.icon_score_base import interface
from pyexec.iconscore.icon_score_base2 import InterfaceScore, sha3_256, json_dumps

class Other(InterfaceScore):
    @interface
    def foo(self, a: int):
        pass


class Busy(Score):
    @eventlog(indexed=1)
    def Event(self, a: int, b: str = 'x'):
        pass


def two(f, g):
    outcome(f)
    outcome(g)


# what a contract can ask for
USES = {
    'var': lambda s, n: two(lambda: VarDB('v', s.db, int).set(n), lambda: VarDB('v', s.db, int).remove()),
    'read': lambda s, n: VarDB('v', s.db, int).get(),
    'dict': lambda s, n: two(lambda: DictDB('d', s.db, bytes, 2)[1].__setitem__(SELF, b'x'),
                             lambda: DictDB('d', s.db, bytes, 2)[1]['k']),
    'put': lambda s, n: ArrayDB('a', s.db, str).put('z'),
    'pop': lambda s, n: ArrayDB('a', s.db, str).pop(),
    'find': lambda s, n: 'q' in ArrayDB('a', s.db, str),
    'event': lambda s, n: two(lambda: s.Event(n), lambda: s.Event('no')),
    'hash': lambda s, n: two(lambda: sha3_256(b'k'), lambda: json_dumps({'a': 1})),
    'fee': lambda s, n: two(lambda: s.set_fee_sharing_proportion(5), lambda: s.set_fee_sharing_proportion(500)),
    'balance': lambda s, n: s.icx.get_balance(USER),
    'send': lambda s, n: two(lambda: s.icx.send(OTHER, 3), lambda: s.icx.transfer(OTHER, 3)),
    'call': lambda s, n: s.call(OTHER, 'foo', {'a': n}),
    'interface': lambda s, n: s.create_interface_score(OTHER, Other).icx(4).foo(n),
    'writes': lambda s, n: [VarDB('v', s.db, int).set(i) for i in range(7)],
}


@unit('C12 C20 C21 C22', oc.INV)
def idle_state(h):
    """an invocation leaves the executor as it found it"""
    w = World(h, Busy)
    how = h.choose('end', ENDS + ['no method', 'coins', 'no package', 'params', 'twice', 'interface'])
    query = h.choose('query', [False, True])
    costs = h.choose('costs', [{'schema': 1, 'getBase': 3, 'get': 1, 'setBase': 5, 'set': 2, 'deleteBase': 2,
                                    'delete': -1, 'logBase': 3, 'log': 1, 'apiCall': 7}, {'set': 3, 'replace': 1, 'delete': 2}] if how in ('returns', 'settlement')
                     else [{}])
    limit = h.choose('limit', [10 ** 9, 60])
    inside = h.choose('inside', ['nothing'] + list(USES) if how in ('returns', 'raises', 'exits', 'settlement') else ['nothing'])
    n = 300
    Prog.run = lambda s: None
    w.invoke('run', costs={})
    w.invoke('run', costs={}, code='none')
    n0 = w.node
    nested = inside in ('call', 'interface', 'send') and h.choose('nested', [False, True])
    depth = []

    def run(s):
        depth.append(1)
        if inside != 'nothing' and len(depth) < 3:
            outcome(USES[inside], s, n)
        return end(w, s, how if how in ENDS else 'returns')
    Prog.run = run
    if nested:
        def on_call(node, data):
            m = w.message('run', to=OTHER, costs=costs, limit=30, query=query)
            node.replies.append((Message.INVOKE, m))
            node.after.append(lambda x, res: x.replies.append((Message.RESULT, [res[0], res[1], res[2]])))
    else:
        def on_call(node, data):
            node.replies.append((Message.RESULT, [0, spec.I2B(1), wire(n)]))
    n0.on_call = on_call
    n0.on_contains = lambda data: [True, 2, 9]
    before = picture.program(w)
    if how == 'interface':
        w.deliver((Message.GETAPI, spec.UTF8(CODE)), (Message.GETAPI, spec.UTF8('none')))
    else:
        kw = {'no method': {'method': 'hidden'}, 'coins': {'value': 3}, 'no package': {'code': 'none'},
              'params': {'params': {'a': '0x'}}}.get(how, {})
        for i in range(2 if how == 'twice' else 1):
            w.invoke(**{'method': 'run', 'query': query, 'costs': costs, 'limit': limit, **kw})
    kept = picture.difference(before, picture.program(w))
    if kept is not None:
        h.unsupported('the executor keeps state between invocations: ' + kept)
        return
    h.check('the executor is as before', True)
