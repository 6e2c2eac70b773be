"""C14: events."""
from pv.harness import unit
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff, Ite

from vc.lib import World, Prog, Score, Message, Address, EOA, CON, addr_bytes, sym_address, outcome, code_of, eventlog, external
from vc.outcome import one_result
from pyexec.base import exception as X

EV = ('pyexec.iconscore.icon_score_base:eventlog pyexec.iconscore.icon_score_base:__resolve_arguments '
      'pyexec.iconscore.icon_score_base:__retrieve_event_signature '
      'pyexec.iconscore.icon_score_eventlog:EventLogEmitter.emit_event_log '
      'pyexec.iconscore.icon_score_eventlog:EventLogEmitter.__get_byte_length '
      'pyexec.iconscore.icon_score_eventlog:EventLogEmitter.__get_bytes_from_base_type '
      'pyexec.ipc.proxy:ServiceManagerProxy.send_event pyexec.ipc.proxy:ServiceManagerProxy.encode')
A5 = Address(EOA, b'\x05' * 20)


class Events(Score):
    @eventlog
    def none(self):
        pass

    @eventlog(indexed=1)
    def one(self, a: int):
        pass

    @eventlog(indexed=0)
    def all0(self, i: int, s: str, b: bytes, f: bool, a: Address):
        pass

    @eventlog(indexed=1)
    def all1(self, i: int, s: str, b: bytes, f: bool, a: 'Address'):
        pass

    @eventlog(indexed=2)
    def all2(self, a: 'Address', f: bool, b: bytes, s: str, i: int):
        pass

    @eventlog(indexed=3)
    def all3(self, s: str, a: Address, i: int, b: bytes, f: bool):
        pass

    @eventlog(indexed=3)
    def exact(self, i: int, a: Address, s: str):
        pass

    @eventlog(indexed=1)
    def defaults(self, i: int = 7, s: str = 'dflt', b: bytes = b'\x01\x02', f: bool = True, a: Address = A5):
        pass

    @eventlog(indexed=2)
    def nones(self, i: int, s: str = None, a: Address = None):
        pass

    @eventlog(indexed=2)
    def ICXTransfer(self, _from: Address, _to: Address, _amount: int):
        pass


SIGS = {'none': 'none()', 'one': 'one(int)', 'all0': 'all0(int,str,bytes,bool,Address)',
        'all1': 'all1(int,str,bytes,bool,Address)', 'all2': 'all2(Address,bool,bytes,str,int)',
        'all3': 'all3(str,Address,int,bytes,bool)', 'exact': 'exact(int,Address,str)',
        'defaults': 'defaults(int,str,bytes,bool,Address)', 'nones': 'nones(int,str,Address)'}
INDEXED = {'none': 0, 'one': 1, 'all0': 0, 'all1': 1, 'all2': 2, 'all3': 3, 'exact': 3, 'defaults': 1, 'nones': 2}
PARAMS = {'none': '', 'one': 'i', 'all0': 'isbfa', 'all1': 'isbfa', 'all2': 'afbsi', 'all3': 'saibf', 'exact': 'ias',
          'defaults': 'isbfa', 'nones': 'isa'}
NAMES = {'one': 'a'}
DEFAULTS = {'defaults': [7, 'dflt', b'\x01\x02', True, A5], 'nones': [..., None, None]}


def value(h, t, name, null):
    if null:
        return None
    if t == 'i':
        return h.int(name)
    if t == 's':
        return h.str(name)
    if t == 'b':
        return h.bytes(name)
    if t == 'f':
        return True if h.bool(name) else False
    return sym_address(h, name)


def enc(v):
    """by type"""
    if v is None:
        return None
    if isinstance(v, bytes):
        return v
    if isinstance(v, str):
        return spec.UTF8(v)
    if isinstance(v, bool):
        return b'\x01' if v else b'\x00'
    if isinstance(v, int):
        return spec.I2B(v)
    return addr_bytes(v)


def size(sig, vals):
    n = len(spec.UTF8(sig))
    for v in vals:
        if v is not None:
            n = n + len(enc(v))
    return n


def emit(h, fn, args, kwargs, costs=None, limit=10 ** 12, method='run', query=False, cls=Events):
    w = World(h, cls)
    box = []

    def run(s):
        box.append(outcome(getattr(s, fn), *args, **kwargs))
        return 1
    Prog.run = run
    r = w.invoke(method, limit=limit, costs={} if costs is None else costs, query=query)
    one_result(h, w, r)
    return w, box[0], r


def check_sent(h, w, fn, vals):
    ev = w.node.sent(Message.EVENT)
    h.check('sent once', len(ev) == 1)
    if len(ev) != 1:
        return
    idx, data = ev[0]
    n = INDEXED[fn]
    h.check('number of indexed values', len(idx) == n + 1)
    h.check('number of other values', len(data) == len(vals) - n)
    h.check('signature', idx[0] == spec.UTF8(SIGS[fn]))
    got = list(idx[1:]) + list(data)
    for i in range(len(vals)):
        h.check('value', spec.same(got[i], enc(vals[i])))


@unit('C14', EV)
def event_values(h):
    """all values given, by position or by name, any of them null"""
    fn = h.choose('event', ['none', 'one', 'all0', 'all1', 'all2', 'all3', 'exact', 'defaults', 'nones'])
    ts = PARAMS[fn]
    null = h.choose('null', [None] + list(range(len(ts))))
    vals = [value(h, t, f'v{i}', i == null) for i, t in enumerate(ts)]
    npos = h.choose('by position', [len(ts), 0, len(ts) // 2] if len(ts) > 1 else [len(ts), 0][:len(ts) + 1])
    kw = {}
    for i in range(len(ts) - 1, npos - 1, -1):
        kw[NAMES.get(fn, ts)[i]] = vals[i]
    w, o, r = emit(h, fn, vals[:npos], kw)
    h.check('accepted', o[0] == 'ok')
    if o[0] == 'ok':
        h.check('returns nothing', o[1] is None)
        check_sent(h, w, fn, vals)


@unit('C14', EV)
def event_defaults(h):
    """missing values take the declared defaults"""
    fn = h.choose('event', ['defaults', 'nones'])
    ts = PARAMS[fn]
    d = DEFAULTS[fn]
    npos = h.choose('given', list(range(len(ts))))
    skip = h.choose('one more by name', [None] + list(range(npos, len(ts))))
    vals = [value(h, t, f'v{i}', False) if i < npos or i == skip else d[i] for i, t in enumerate(ts)]
    kw = {} if skip is None else {ts[skip]: vals[skip]}
    w, o, r = emit(h, fn, vals[:npos], kw)
    if vals[0] is ...:
        h.check('missing value is refused', code_of(o) == 5)
        h.check('nothing is sent', len(w.node.sent(Message.EVENT)) == 0)
        return
    h.check('accepted', o[0] == 'ok')
    check_sent(h, w, fn, vals)


@unit('C14', EV)
def event_cost(h):
    """paid by its encoded size before it is sent"""
    fn = h.choose('event', ['one', 'all1', 'all3', 'nones'])
    ts = PARAMS[fn]
    null = h.choose('null', [None, 0])
    vals = [value(h, t, f'v{i}', i == null) for i, t in enumerate(ts)]
    schema = h.choose('schema', [0, 1])
    limit = h.int('limit', 0)
    unit_ = h.int('unit', 0, 10 ** 6)
    base = h.int('base', 0) if schema else 0
    costs = {'schema': 1, 'logBase': base, 'log': unit_, 'eventLog': 77} if schema else \
        {'eventLog': unit_, 'log': 55, 'logBase': 66}
    w, o, r = emit(h, fn, vals, {}, costs, limit)
    cost = base + unit_ * size(SIGS[fn], vals)
    if o[0] == 'ok':
        h.check('fits', cost <= limit)
        check_sent(h, w, fn, vals)
        h.check('steps', r[1] == cost)
    else:
        h.check('does not fit', cost > limit)
        h.check('out of step', code_of(o) == 10)
        h.check('nothing is sent', len(w.node.sent(Message.EVENT)) == 0)
        h.check('all is used', r[1] == limit)


OTHERTYPES = {'i': ['x', b'x', A5, 1.5, [1], '', b'', 0.0], 's': [1, b'x', A5, True, ['x'], 0, b'', False, []],
              'b': ['x', 1, A5, bytearray(b'x'), '', 0, bytearray()], 'f': [1, 0, 'x', b'\x01', A5, '', b'', 0.0],
              'a': ['cx' + '0' * 40, b'\x00' * 21, 1, True, '', b'', 0, False, ()]}


@unit('C14', EV)
def event_wrong_type(h):
    fn = h.choose('event', ['all0', 'all3', 'defaults', 'nones'])
    ts = PARAMS[fn]
    i = h.choose('which', list(range(len(ts))))
    bad = h.choose('bad', OTHERTYPES[ts[i]])
    vals = [bad if j == i else value(h, t, f'v{j}', False) for j, t in enumerate(ts)]
    kwd = h.choose('by name', [False, True])
    w, o, r = emit(h, fn, vals[:i] if kwd else vals, {ts[j]: vals[j] for j in range(i, len(ts))} if kwd else {})
    h.check('refused', code_of(o) == 5)
    h.check('nothing is sent', len(w.node.sent(Message.EVENT)) == 0)


@unit('C14', EV)
def event_wrong_number(h):
    fn = h.choose('event', ['none', 'one', 'all0', 'all1', 'all2', 'all3', 'exact'])
    ts = PARAMS[fn]
    names = NAMES.get(fn, ts)
    vals = [value(h, t, f'v{j}', False) for j, t in enumerate(ts)]
    case = h.choose('case', ['missing', 'one too many', 'twice', 'named too many', 'named missing', 'given again'])
    kw = {}
    args = vals
    if case == 'missing':
        h.assume(len(ts) > 0)
        args = vals[:-1]
    elif case == 'one too many':
        args = vals + [None]
    elif case == 'twice':
        h.assume(len(ts) > 1)
        args, kw = vals[:-1], {names[0]: h.choose('again', [vals[0], None])}
    elif case == 'given again':
        h.assume(len(ts) > 0)
        kw = {h.choose('which', [names[0], names[-1]]): h.choose('again', [vals[0], None])}
    elif case == 'named too many':
        kw = {'zz': h.choose('extra', [1, None])}
    else:
        h.assume(len(ts) > 0)
        args, kw = [], {names[j]: vals[j] for j in range(1, len(ts))}
    w, o, r = emit(h, fn, args, kw)
    h.check('refused', code_of(o) == 5)
    h.check('nothing is sent', len(w.node.sent(Message.EVENT)) == 0)


def transfer(deco):
    def f(self, a: Address, b: Address, c: int):
        pass
    f.__name__, f.__qualname__ = 'ICXTransfer', 'Transfers.ICXTransfer'
    return type(Score)('Transfers', (Score,), {'ICXTransfer': deco(f)})


# any declared count of indexed parameters
TRANSFERS = [transfer(eventlog)] + [transfer(eventlog(indexed=n)) for n in (0, 1, 3)]


@unit('C14 C10', EV)
def event_reserved(h):
    """the transfer signature is reserved, whatever the values"""
    null = h.choose('missing', [None, 0, 1, 2])
    vals = [sym_address(h, 'f'), sym_address(h, 't'), h.int('n')]
    if null is not None:
        vals[null] = None
    cls = h.choose('class', [Events, type('Derived', (Events,), {}), *TRANSFERS])
    w, o, r = emit(h, 'ICXTransfer', vals, {}, cls=cls)
    h.check('refused', code_of(o) == 5)
    h.check('nothing is sent', len(w.node.sent(Message.EVENT)) == 0)


class Alike(Score):
    """names and signatures that resemble the reserved one"""

    @eventlog(indexed=1)
    def ICXTransfer(self, a: Address, b: Address, c: bytes):
        pass

    @eventlog
    def ICXTransferred(self, a: Address, b: Address, c: int):
        pass

    @eventlog(indexed=3)
    def icxtransfer(self, a: Address, b: Address, c: int):
        pass


class Alike2(Score):
    @eventlog(indexed=1)
    def ICXTransfer(self, a: Address, b: Address, c: int, d: int):
        pass

    @eventlog
    def Transfer(self, a: Address, b: Address, c: int):
        pass


@unit('C14', EV)
def event_alike(h):
    """no other event is"""
    cls, fn, sig = h.choose('event', [
        (Alike, 'ICXTransfer', '(Address,Address,bytes)'), (Alike, 'ICXTransferred', '(Address,Address,int)'),
        (Alike, 'icxtransfer', '(Address,Address,int)'), (Alike2, 'ICXTransfer', '(Address,Address,int,int)'),
        (Alike2, 'Transfer', '(Address,Address,int)')])
    vals = [sym_address(h, 'f'), sym_address(h, 't'), h.bytes('b') if cls is Alike and fn == 'ICXTransfer' else h.int('n')]
    if sig.endswith('int,int)'):
        vals.append(h.int('m'))
    w, o, r = emit(h, fn, vals, {}, cls=cls)
    ev = w.node.sent(Message.EVENT)
    h.check('sent once', And(o[0] == 'ok', len(ev) == 1))
    if len(ev) == 1:
        h.check('signature', spec.same(ev[0][0][0], spec.UTF8(fn + sig)))
        h.check('values', spec.same(ev[0][0][1:] + ev[0][1], [enc(v) for v in vals]))


@unit('C14', 'pyexec.iconscore.icon_score_eventlog:EventLogEmitter.emit_event_log')
def event_sequence(h):
    """two events in a row, in order, each paid"""
    w = World(h, Events)
    a, b = h.int('a'), h.str('b')
    c = h.int('c')
    unit_ = h.int('unit', 0, 10 ** 6)
    limit = h.int('limit', 0)
    box = []

    def run(s):
        box.append(outcome(s.one, a))
        box.append(outcome(s.nones, c, b))
        return 1
    Prog.run = run
    r = w.invoke('run', limit=limit, costs={'eventLog': unit_})
    one_result(h, w, r)
    c1 = unit_ * size(SIGS['one'], [a])
    c2 = unit_ * size(SIGS['nones'], [c, b, None])
    ev = w.node.sent(Message.EVENT)
    if box[0][0] == 'raise':
        h.check('first does not fit', c1 > limit)
        h.check('nothing left for the second', Or(len(ev) == 0, c2 == 0))
    elif box[1][0] == 'raise':
        h.check('second does not fit', c1 + c2 > limit)
        h.check('only the first', And(len(ev) == 1, ev[0][0][0] == b'one(int)'))
    else:
        h.check('both fit', c1 + c2 <= limit)
        h.check('order', And(len(ev) == 2, ev[0][0][0] == b'one(int)', ev[1][0][0] == b'nones(int,str,Address)'))
        h.check('values', And(ev[0][0][1] == spec.I2B(a), ev[1][0][1] == spec.I2B(c), ev[1][0][2] == spec.UTF8(b),
                              ev[1][1][0] is None))
        h.check('steps', r[1] == c1 + c2)


@unit('C14', 'pyexec.iconscore.icon_score_base:eventlog')
def event_foreign(h):
    """an event function called on another object"""
    w = World(h, Events)
    box = []
    Prog.run = lambda s: box.append(outcome(Events.one, object(), 1))
    r = w.invoke('run', costs={})
    one_result(h, w, r)
    h.check('refused', And(box[0][0] == 'raise', isinstance(box[0][1], X.IconServiceBaseException)))
    h.check('nothing is sent', len(w.node.sent(Message.EVENT)) == 0)
