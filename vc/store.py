"""C04: database keys.  C05: stored arrays.  C06: stored variables and
dictionaries."""
from pv.harness import unit, contract
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff

from vc.lib import World, Prog, Message, Address, EOA, CON, addr_bytes, sym_address, outcome
from pyexec.database import db as dbmod
from pyexec.base import exception as X
from pyexec.iconscore.icon_container_db import ArrayDB, DictDB, VarDB

DB = ('pyexec.database.db:IconScoreDatabase.get pyexec.database.db:IconScoreDatabase.put '
      'pyexec.database.db:IconScoreDatabase.delete pyexec.database.db:IconScoreDatabase.get_sub_db '
      'pyexec.database.db:IconScoreDatabase._hash_key pyexec.database.db:concat_encoded '
      'pyexec.database.db:get_encoded_key pyexec.iconscore.icon_container_db:ContainerUtil.encode_key ')
KEYS = ['bytes', 'str', 'int', 'address']
TAGS = {'array': b'\x00', 'dict': b'\x01', 'var': b'\x02'}


def sym_key(h, name, kinds=KEYS):
    """(key given by the contract, its byte form)"""
    k = h.choose(name + '_type', kinds)
    if k == 'bytes':
        v = h.bytes(name)
        return v, v
    if k == 'str':
        v = h.str(name)
        return v, spec.UTF8(v)
    if k == 'int':
        v = h.int(name)
        return v, spec.I2B(v)
    v = sym_address(h, name)
    return v, addr_bytes(v)


def ref_plain(kind, path):
    return spec.cat(TAGS[kind], *[spec.RLP(p) for p in path])


def ref_key(kind, path):
    """the database key of an element"""
    return spec.SHA3(ref_plain(kind, path))


def execute(h, w, prog, **k):
    """run prog(score) as a method; ('ok', value) or ('raise', exception)"""
    box = []

    def run(s):
        box.append(outcome(prog, s))
    Prog.run = run
    r = w.invoke('run', costs={}, **k)
    h.check('the invocation is answered', And(r is not None, len(box) == 1))
    return box[0]


def accessed(w):
    """keys of all state accesses, in order"""
    out = []
    for m, d in w.node.log:
        if m == Message.GETVALUE:
            out.append(('get', d))
        elif m == Message.SETVALUE:
            out.append(('del' if d[1] & 1 else 'set', d[0]))
    return out


def writes(w):
    return [(d[0], d[1] & 1, d[2]) for m, d in w.node.log if m == Message.SETVALUE]


# ---- C04 -------------------------------------------------------------------------

def access(h, s, db, kind, keys, op):
    if kind == 'var':
        v = VarDB(keys[0], db, bytes)
        return v.get() if op == 'get' else v.set(b'v') if op == 'set' else v.remove()
    if kind == 'dict':
        d = DictDB(keys[0], db, bytes, len(keys) - 1)
        for k in keys[1:-1]:
            d = d[k]
        if op == 'get':
            return d[keys[-1]]
        if op == 'set':
            d[keys[-1]] = b'v'
        elif op == 'has':
            return keys[-1] in d
        elif op == 'remove':
            d.remove(keys[-1])
        else:
            del d[keys[-1]]


@unit('C04', DB + 'pyexec.iconscore.icon_container_db:VarDB.__init__ pyexec.iconscore.icon_container_db:VarDB.get '
                  'pyexec.iconscore.icon_container_db:VarDB.set pyexec.iconscore.icon_container_db:VarDB.remove')
def key_of_variable(h):
    w = World(h)
    name, nb = sym_key(h, 'name')
    sub = h.choose('sub', [0, 1, 2])
    pre = [h.bytes(f'pre{i}') for i in range(sub)]
    op = h.choose('op', ['get', 'set', 'remove'])

    def prog(s):
        db = s.db
        for p in pre:
            db = db.get_sub_db(p)
        access(h, s, db, 'var', [name], op)
    execute(h, w, prog)
    a = accessed(w)
    h.check('one access', len(a) == 1)
    h.check('key', a[0][1] == ref_key('var', [nb] + pre))


@unit('C04', DB + 'pyexec.iconscore.icon_container_db:DictDB.__init__ '
                  'pyexec.iconscore.icon_container_db:DictDB.__getitem__ '
                  'pyexec.iconscore.icon_container_db:DictDB.__setitem__ '
                  'pyexec.iconscore.icon_container_db:DictDB.__contains__ '
                  'pyexec.iconscore.icon_container_db:DictDB.__delitem__ '
                  'pyexec.iconscore.icon_container_db:DictDB.remove '
                  'pyexec.iconscore.icon_container_db:DictDB.__remove')
def key_of_entry(h):
    w = World(h)
    depth = h.choose('depth', [1, 2, 3])
    name, nb = sym_key(h, 'name', ['bytes', 'int'])
    keys, kb = [name], [nb]
    for i in range(depth):
        k, b = sym_key(h, f'k{i}', KEYS if i == depth - 1 else ['str'])
        keys.append(k)
        kb.append(b)
    op = h.choose('op', ['get', 'set', 'has', 'del', 'remove'])
    sub = h.choose('sub', [0, 1])
    pre = [h.bytes(f'pre{i}') for i in range(sub)]

    def prog(s):
        db = s.db
        for p in pre:
            db = db.get_sub_db(p)
        access(h, s, db, 'dict', keys, op)
    execute(h, w, prog)
    a = accessed(w)
    h.check('one access', len(a) == 1)
    h.check('key', a[0][1] == ref_key('dict', [kb[0]] + pre + kb[1:]))


@unit('C04', DB + 'pyexec.iconscore.icon_container_db:ArrayDB.__init__ '
                  'pyexec.iconscore.icon_container_db:ArrayDB._get '
                  'pyexec.iconscore.icon_container_db:ArrayDB.__put '
                  'pyexec.iconscore.icon_container_db:ArrayDB.__get_size '
                  'pyexec.iconscore.icon_container_db:ArrayDB.__set_size '
                  'pyexec.database.db:IconScoreDatabase.contains')
def key_of_array(h):
    w = World(h)
    name, nb = sym_key(h, 'name')
    n = h.int('n', 1)
    i = h.int('i', 0)
    h.assume(i < n)
    size_key = ref_key('array', [nb])
    w.node.initial = lambda k: spec.I2B(n) if k == size_key else b'x'
    w.node.on_contains = lambda d: [False, 1, 1]
    op = h.choose('op', ['get', 'set', 'put', 'pop', 'len', 'contains'])

    def prog(s):
        a = ArrayDB(name, s.db, bytes)
        if op == 'get':
            a[i]
        elif op == 'set':
            a[i] = b'v'
        elif op == 'put':
            a.put(b'v')
        elif op == 'pop':
            a.pop()
        elif op == 'len':
            a._ArrayDB__get_size() if h.symbolic else len(a)
        else:
            b'v' in a
    if op == 'len' and not h.symbolic:
        h.assume(n < 2 ** 63)
    execute(h, w, prog)
    elem = i if op in ('get', 'set') else n if op == 'put' else n - 1
    ek = ref_key('array', [nb, spec.I2B(elem)])
    for what, k in accessed(w):
        h.check('size or element', Or(k == size_key, k == ek))
    if op in ('put', 'pop', 'set'):
        h.check('element is written', Or(False, *[k == ek for what, k in accessed(w) if what != 'get']))
    if op == 'get':
        h.check('element is read', Or(False, *[k == ek for what, k in accessed(w) if what == 'get']))
    if op == 'contains':
        h.check('search prefix', w.node.sent(Message.CONTAINS)[0][0] == ref_plain('array', [nb]))


SHAPES = [('var', 1), ('array', 1), ('array', 2), ('dict', 2), ('dict', 3), ('dict', 4)]


def shape_access(s, kind, n, p):
    if kind == 'array' and n == 1:
        d = s.db.get_sub_db(p[0], b'\x00')
        d.get(None)
    elif kind == 'array':
        d = s.db.get_sub_db(p[0], b'\x00')
        d.get(p[1])
    else:
        access(None, s, s.db, kind, p, 'get')


@unit('C04', DB, cost=3)
def key_distinct(h):
    """two elements have the same key only if they are the same element"""
    w = World(h)
    k1, n1 = h.choose('shape1', SHAPES)
    k2, n2 = h.choose('shape2', SHAPES)
    p1 = [h.bytes(f'a{i}') for i in range(n1)]
    p2 = [h.bytes(f'b{i}') for i in range(n2)]

    def prog(s):
        shape_access(s, k1, n1, p1)
        shape_access(s, k2, n2, p2)
        shape_access(s, k1, n1, p1)
    execute(h, w, prog)
    a = [k for what, k in accessed(w) if what == 'get']
    h.check('three accesses', len(a) == 3)
    same = And(k1 == k2, n1 == n2, *([p1[i] == p2[i] for i in range(n1)] if n1 == n2 else []))
    h.check('distinct elements have distinct keys', Implies(a[0] == a[1], same))
    h.check('the same element has one key', Implies(same, a[0] == a[1]))
    h.check('independent of the history', a[0] == a[2])


@contract('pyexec.database.db:rlp_get_bytes')
def c_rlp_len(h, x):
    h.check('precondition: a length', And(x >= 0, x < 2 ** 53))
    return spec.BE(x)


@unit('C04', 'pyexec.database.db:rlp_get_bytes', inline=('pyexec.database.db:rlp_get_bytes',),
      proves=('pyexec.database.db:rlp_get_bytes',))
def rlp_length_bytes(h):
    """big-endian without leading zeros; a length has at most seven bytes, so recursion and loops end"""
    n = h.choose('n', list(range(8)))
    x = h.int('x', 256 ** (n - 1) if n else 0, min(256 ** n, 2 ** 53) - 1)
    r = dbmod.rlp_get_bytes(x)
    h.check('length', len(r) == n)
    if len(r) == n:
        for i in range(n - 1, -1, -1):
            h.check(f'digit {i}', r[i] == x % 256)
            x = x // 256


@unit('C04', 'pyexec.database.db:rlp_encode_bytes', use=('pyexec.database.db:rlp_get_bytes',),
      inline=('pyexec.database.db:rlp_encode_bytes',), proves=('pyexec.database.db:rlp_encode_bytes',))
def rlp_definition(h):
    """the length-prefixed encoding, by its definition"""
    b = h.bytes('b', hi=2 ** 50) if h.symbolic else h.bytes('b', hi=h.choose('big', [600, 70000]))
    r = dbmod.rlp_encode_bytes(b)
    n = len(b)
    h.check('same as the specification', r == spec.RLP(b) if not h.symbolic else True)
    if n == 1 and b[0] < 128:
        h.check('single byte', r == b)
    elif n <= 55:
        h.check('short', r == spec.cat(spec.byte(0x80 + n), b))
    else:
        ln = spec.BE(n)
        h.check('long', r == spec.cat(spec.byte(0xb7 + len(ln)), ln, b))


# ---- values --------------------------------------------------------------------

TYPES = [int, str, bytes, bool, Address]


def typed(h, t, name, lo=0):
    """(value of the declared type, its stored form)"""
    if t is int:
        v = h.int(name)
        return v, spec.I2B(v)
    if t is str:
        v = h.str(name, lo=lo)
        return v, spec.UTF8(v)
    if t is bytes:
        v = h.bytes(name, lo=lo)
        return v, v
    if t is bool:
        v = True if h.bool(name) else False
        return v, b'\x01' if v else b'\x00'
    v = Address(h.choose(name + '_kind', [EOA, CON]), h.bytes(name, n=20))
    return v, addr_bytes(v)


DEFAULT = {int: 0, str: '', bool: False, bytes: None, Address: None}


# ---- C05 -------------------------------------------------------------------------

ARR = ('pyexec.iconscore.icon_container_db:ArrayDB.{0} pyexec.iconscore.icon_container_db:ArrayDB._get '
       'pyexec.iconscore.icon_container_db:ArrayDB.__get_size pyexec.iconscore.icon_container_db:ArrayDB.__set_size '
       'pyexec.iconscore.icon_container_db:ArrayDB.__put pyexec.iconscore.icon_container_db:ContainerUtil.encode_value '
       'pyexec.iconscore.icon_container_db:ContainerUtil.decode_object')


class Arr:
    """a stored array of arbitrary content: size n, element i is elem(i)"""

    def __init__(self, h, t, small=None):
        self.h, self.t = h, t
        self.w = World(h)
        self.name = b'arr'
        self.size_key = ref_key('array', [self.name])
        self.n = h.int('n', 0, 2 ** 62) if small is None else small
        self.fresh = h.choose('size_zero', ['absent', 'stored']) if small is None else 'absent'
        self.elems = []
        self.w.node.initial = self.initial

    def initial(self, k):
        if k == self.size_key:
            if self.fresh == 'absent' and self.n == 0:
                return None
            return spec.I2B(self.n)
        v, e = typed(self.h, self.t, 'elem', lo=1)
        self.elems.append((k, v))
        return e

    def key(self, i):
        return ref_key('array', [self.name, spec.I2B(i)])

    def old(self, i):
        """(found, value) of element i as it was read"""
        for k, v in self.elems:
            if k == self.key(i):
                return True, v
        return False, None

    def run(self, f, **k):
        return execute(self.h, self.w, lambda s: f(ArrayDB(self.name, s.db, self.t)), **k)

    def refused(self, r):
        h = self.h
        h.check('refused', And(r[0] == 'raise', isinstance(r[1], X.InvalidParamsException)))
        h.check('nothing is written', len(writes(self.w)) == 0)


def log_is(h, name, got, want):
    """the writes are exactly these: (key, deleted, value)"""
    h.check(name + ': number of writes', len(got) == len(want))
    for g, x in zip(got, want):
        h.check(name + ': key', g[0] == x[0])
        h.check(name + ': kind', g[1] == x[1])
        h.check(name + ': value', spec.same(g[2], x[2]))


@unit('C05', ARR.format('put'))
def array_put(h):
    t = h.choose('type', TYPES)
    a = Arr(h, t)
    v, e = typed(h, t, 'v')
    r = a.run(lambda d: d.put(v))
    h.check('returns nothing', And(r[0] == 'ok', r[1] is None))
    got = writes(a.w)
    h.check('two writes', len(got) == 2)
    if got[0][0] == a.size_key:
        got = [got[1], got[0]]
    log_is(h, 'append', got, [(a.key(a.n), 0, e), (a.size_key, 0, spec.I2B(a.n + 1))])


@unit('C05', ARR.format('pop'))
def array_pop(h):
    t = h.choose('type', TYPES)
    a = Arr(h, t)
    r = a.run(lambda d: d.pop())
    if a.n == 0:
        h.check('nothing', And(r[0] == 'ok', r[1] is None))
        h.check('nothing is written', len(writes(a.w)) == 0)
        return
    found, v = a.old(a.n - 1)
    h.check('last value', And(r[0] == 'ok', found, spec.same(r[1], v)))
    got = writes(a.w)
    h.check('two writes', len(got) == 2)
    if got[0][0] == a.size_key:
        got = [got[1], got[0]]
    log_is(h, 'remove last', got, [(a.key(a.n - 1), 1, None), (a.size_key, 0, spec.I2B(a.n - 1))])


@unit('C05', ARR.format('__getitem__') + ' pyexec.iconscore.icon_container_db:ArrayDB.get')
def array_get(h):
    t = h.choose('type', TYPES)
    a = Arr(h, t)
    i = h.int('i', near=(0, -1))
    how = h.choose('how', ['get', '[]', 'get()'])
    if how == 'get()':
        i = 0
    r = a.run(lambda d: d.get(i) if how == 'get' else d[i] if how == '[]' else d.get())
    if And(i >= 0, i < a.n):
        j = i
    elif And(i < 0, i >= -a.n):
        j = i + a.n
    else:
        a.refused(r)
        return
    found, v = a.old(j)
    h.check('the element', And(r[0] == 'ok', found, spec.same(r[1], v)))
    h.check('nothing is written', len(writes(a.w)) == 0)


@unit('C05', ARR.format('__setitem__'))
def array_set(h):
    t = h.choose('type', TYPES)
    a = Arr(h, t)
    i = h.int('i', near=(0, -1))
    v, e = typed(h, t, 'v')

    def f(d):
        d[i] = v
    r = a.run(f)
    if And(i >= 0, i < a.n):
        j = i
    elif And(i < 0, i >= -a.n):
        j = i + a.n
    else:
        a.refused(r)
        return
    h.check('accepted', r[0] == 'ok')
    log_is(h, 'overwrite', writes(a.w), [(a.key(j), 0, e)])


@unit('C05', ARR.format('__setitem__') + ' pyexec.iconscore.icon_container_db:ArrayDB.__getitem__')
def array_bad_arguments(h):
    a = Arr(h, int)
    i = h.choose('index', [None, '0', b'0', 0.0, (0,)])
    op = h.choose('op', ['get', 'set', 'value', 'put'])
    bad = h.choose('bad_value', [None, 1.5, [], {}, bytearray(b'x')])

    def f(d):
        if op == 'get':
            return d[i]
        if op == 'set':
            d[i] = 1
        elif op == 'value':
            d[0] = bad
        else:
            d.put(bad)
    r = a.run(f)
    a.refused(r)


@unit('C05', ARR.format('__len__'))
def array_len(h):
    a = Arr(h, int)
    h.assume(a.n < 2 ** 62)
    r = a.run(lambda d: len(d) if not h.symbolic else d.__len__())
    h.check('size', And(r[0] == 'ok', r[1] == a.n))
    h.check('nothing is written', len(writes(a.w)) == 0)


GEN = 'pyexec.iconscore.icon_container_db:ArrayDB._get_generator'


@unit('C05', ARR.format('__iter__') + ' ' + GEN, frame=GEN)
def array_iterate(h):
    """any length: the loop is run for one arbitrary index (frame rule)"""
    t = h.choose('type', TYPES)
    a = Arr(h, t)
    i = h.int('i', 0)
    h.assume(i < a.n)
    h.generic(i, a.n)
    r = a.run(lambda d: [x for x in d])
    h.check('accepted', r[0] == 'ok')
    h.check('nothing is written', len(writes(a.w)) == 0)
    if h.generic_used():
        found, v = a.old(i)
        h.check('one element for an index', len(r[1]) == 1)
        h.check('element', And(found, spec.same(r[1][0], v)))
    else:
        h.check('length', len(r[1]) == a.n)
        for k in range(len(r[1])):
            found, v = a.old(k)
            h.check('element', And(found, spec.same(r[1][k], v)))


@unit('C05', ARR.format('__iter__') + ' ' + GEN)
def array_iterate_small(h):
    t = h.choose('type', TYPES)
    n = h.choose('length', [0, 1, 2, 4] if t is not int else [0, 1, 2, 4, 40])
    a = Arr(h, t, small=n)
    r = a.run(lambda d: [x for x in d])
    h.check('accepted', r[0] == 'ok')
    h.check('length', len(r[1]) == n)
    for i in range(n):
        found, v = a.old(i)
        h.check('element', And(found, spec.same(r[1][i], v)))
    h.check('nothing is written', len(writes(a.w)) == 0)


@unit('C05', ARR.format('__contains__') + ' pyexec.database.db:ContextDatabase.contains '
             'pyexec.ipc.proxy:ServiceManagerProxy.contains')
def array_search(h):
    """the node searches: the question and the answer are passed on exactly"""
    t = h.choose('type', TYPES)
    a = Arr(h, t)
    v, e = typed(h, t, 'v')
    yes = True if h.bool('yes') else False
    a.w.node.on_contains = lambda d: [yes, h.int('cnt', 0, 100), h.int('size', 0, 10000)]
    r = a.run(lambda d: v in d)
    sent = a.w.node.sent(Message.CONTAINS)
    if a.n == 0:
        h.check('an empty array has nothing', And(r[0] == 'ok', r[1] == False))
    else:
        h.check('the answer of the node', And(r[0] == 'ok', r[1] == yes))
        h.check('one question', len(sent) == 1)
        h.check('about this array', sent[0][0] == ref_plain('array', [a.name]))
        h.check('and this value', sent[0][1] == e)
    h.check('nothing is written', len(writes(a.w)) == 0)


OTHER = [(int, bool), (bool, int), (int, str), (str, bytes), (bytes, str), (Address, bytes)]


@unit('C05', ARR.format('__contains__'), frame=ARR.format('__contains__').split()[0] + ' ' + GEN)
def array_search_other_type(h):
    """a value of another type is compared with each element; any length: the
    search is run at one arbitrary index"""
    t, ot = h.choose('types', OTHER)
    a = Arr(h, t)
    v, e = typed(h, ot, 'v')
    i = h.int('i', 0)
    h.assume(i < a.n)
    h.generic(i, a.n)
    r = a.run(lambda d: v in d)
    h.check('accepted', r[0] == 'ok')
    h.check('nothing is written', len(writes(a.w)) == 0)
    if h.generic_used():
        found, x = a.old(i)
        h.check('true iff equal to the element', And(found, r[1] == (True if x == v else False)))
    else:
        hit = False
        for k, x in a.elems:
            if x == v:
                hit = True
        h.check('true iff equal to an element', And(r[1] == hit, Or(hit, len(a.elems) == a.n)))


@unit('C05', ARR.format('__contains__'))
def array_search_small(h):
    t, ot = h.choose('types', OTHER)
    n = h.choose('length', [0, 1, 3])
    a = Arr(h, t, small=n)
    v, e = typed(h, ot, 'v')
    r = a.run(lambda d: v in d)
    want = False
    for i in range(n):
        found, x = a.old(i)
        if found and (x == v):
            want = True
            break
    h.check('accepted', r[0] == 'ok')
    h.check('true iff equal to an element', r[1] == want)


@unit('C05', ARR.format('put') + ' pyexec.iconscore.icon_container_db:ArrayDB.pop')
def array_then(h):
    """two operations: what was appended or overwritten is what is read"""
    t = h.choose('type', [int, str])
    a = Arr(h, t)
    v, e = typed(h, t, 'v', lo=1)
    x, e2 = typed(h, t, 'x', lo=1)
    seq = h.choose('seq', ['put-last', 'put-pop', 'put-put-pop', 'put-set-pop', 'put-index'])

    def f(d):
        d.put(v)
        if seq == 'put-last':
            return [d[-1]]
        if seq == 'put-pop':
            return [d.pop(), d.__len__() if h.symbolic else (len(d) if a.n < 2 ** 62 else a.n)]
        if seq == 'put-put-pop':
            d.put(x)
            return [d.pop(), d.pop()]
        if seq == 'put-set-pop':
            d[-1] = x
            return [d.pop()]
        return [d[a.n]]
    r = a.run(f)
    h.check('accepted', r[0] == 'ok')
    want = {'put-last': [v], 'put-pop': [v, a.n], 'put-put-pop': [x, v], 'put-set-pop': [x], 'put-index': [v]}[seq]
    h.check('as a list', spec.same(r[1], want))


# ---- C06 -------------------------------------------------------------------------

VD = ('pyexec.iconscore.icon_container_db:VarDB.set pyexec.iconscore.icon_container_db:VarDB.get '
      'pyexec.iconscore.icon_container_db:VarDB.remove pyexec.iconscore.icon_container_db:DictDB.__setitem__ '
      'pyexec.iconscore.icon_container_db:DictDB.__getitem__ pyexec.iconscore.icon_container_db:DictDB.__delitem__ '
      'pyexec.iconscore.icon_container_db:DictDB.__contains__ pyexec.iconscore.icon_container_db:DictDB.remove '
      'pyexec.iconscore.icon_container_db:DictDB.__remove '
      'pyexec.iconscore.icon_container_db:ContainerUtil.encode_value '
      'pyexec.iconscore.icon_container_db:ContainerUtil.decode_object '
      'pyexec.iconscore.icon_container_db:get_default_value pyexec.database.db:ContextDatabase.put '
      'pyexec.database.db:ContextDatabase.get pyexec.database.db:ContextDatabase.delete '
      'pyexec.database.db:ProxyDatabase.put pyexec.database.db:ProxyDatabase.get '
      'pyexec.database.db:ProxyDatabase.delete pyexec.ipc.proxy:ServiceManagerProxy.get_value '
      'pyexec.ipc.proxy:ServiceManagerProxy.set_value')


class Handle:
    """one stored element, as a variable or as an entry of a dictionary"""

    def __init__(self, h, kind, t, tag=''):
        self.h, self.kind, self.t = h, kind, t
        self.name = h.bytes('name' + tag)
        self.keys = []
        self.path = [self.name]
        if kind != 'var':
            for i in range(kind):
                k, b = sym_key(h, f'key{tag}{i}', KEYS if i == kind - 1 and tag == '' else ['int'])
                self.keys.append(k)
                self.path.append(b)

    def key(self):
        return ref_key('var' if self.kind == 'var' else 'dict', self.path)

    def last(self, s):
        if self.kind == 'var':
            return VarDB(self.name, s.db, self.t)
        d = DictDB(self.name, s.db, self.t, self.kind)
        for k in self.keys[:-1]:
            d = d[k]
        return d

    def get(self, s):
        d = self.last(s)
        return d.get() if self.kind == 'var' else d[self.keys[-1]]

    def set(self, s, v):
        d = self.last(s)
        if self.kind == 'var':
            d.set(v)
        else:
            d[self.keys[-1]] = v

    def remove(self, s, how='remove'):
        d = self.last(s)
        if self.kind == 'var':
            d.remove()
        elif how == 'remove':
            d.remove(self.keys[-1])
        else:
            del d[self.keys[-1]]

    def has(self, s):
        return self.keys[-1] in self.last(s)


@unit('C06', VD)
def stored_value(h):
    """an arbitrary state, then reads, a write, a removal, with reads between"""
    t = h.choose('type', TYPES)
    e = Handle(h, h.choose('kind', ['var', 1, 2, 3]), t)
    w = World(h)
    old, oe = typed(h, t, 'old', lo=1)
    had = True if h.bool('had') else False
    w.node.initial = lambda k: oe if had else None
    v, ve = typed(h, t, 'v', lo=1)
    how = h.choose('how', ['remove', 'del'])
    dflt = DEFAULT[t]

    def prog(s):
        out = [e.get(s)]
        e.set(s, v)
        out.append(e.get(s))
        if e.kind != 'var':
            out.append(e.has(s))
        e.remove(s, how)
        out.append(e.get(s))
        if e.kind != 'var':
            out.append(e.has(s))
        return out
    r = execute(h, w, prog)
    h.check('accepted', r[0] == 'ok')
    o = r[1]
    h.check('initial value or default', spec.same(o[0], old if had else dflt))
    h.check('reads the last write', spec.same(o[1], v))
    if e.kind != 'var':
        h.check('present after a write', o[2] == True)
        h.check('absent after a removal', o[4] == False)
    h.check('default after a removal', spec.same(o[3 if e.kind != 'var' else 2], dflt))
    log_is(h, 'writes', writes(w), [(e.key(), 0, ve), (e.key(), 1, None)])


@unit('C06', VD)
def stored_empty(h):
    """the node treats an empty value as removed"""
    t = h.choose('type', [str, bytes])
    e = Handle(h, h.choose('kind', ['var', 1]), t)
    w = World(h)
    had = h.bool('had')
    w.node.initial = lambda k: b'old' if had else None

    def prog(s):
        e.set(s, t())
        return e.get(s)
    r = execute(h, w, prog)
    h.check('reads nothing', And(r[0] == 'ok', not r[1]))
    log_is(h, 'writes', writes(w), [(e.key(), 0, b'')])


@unit('C06', VD)
def stored_presence(h):
    e = Handle(h, h.choose('kind', [1, 2, 3]), h.choose('type', TYPES))
    w = World(h)
    had = True if h.bool('had') else False
    w.node.initial = lambda k: b'\x01' * 21 if had else None
    r = execute(h, w, lambda s: e.has(s))
    h.check('present iff stored', And(r[0] == 'ok', r[1] == had))
    h.check('asks for this entry only', And(len(accessed(w)) == 1, accessed(w)[0][1] == e.key()))


@unit('C06', VD, cost=2)
def stored_frame(h):
    """a write or removal of one element does not change another"""
    t = h.choose('type', [int, bytes])
    a = Handle(h, h.choose('kind', ['var', 1, 2]), t, 'A')
    b = Handle(h, h.choose('kind2', ['var', 1, 2]), t, 'B')
    w = World(h)
    v, ve = typed(h, t, 'v', lo=1)
    op = h.choose('op', ['set', 'remove', 'replace'])

    def prog(s):
        before = b.get(s)
        if op != 'remove':
            a.set(s, v)
        if op == 'replace':
            a.set(s, v)
        if op == 'remove':
            a.remove(s)
        return before, b.get(s)
    w.node.initial = lambda k: b'\x07'
    r = execute(h, w, prog)
    h.check('accepted', r[0] == 'ok')
    if spec.same(a.key(), b.key()):
        h.check('the same element', a.kind == b.kind)
        h.check('changed', spec.same(r[1][1], DEFAULT[t] if op == 'remove' else v))
    else:
        h.check('unchanged', spec.same(r[1][0], r[1][1]))


@unit('C06', VD)
def stored_type_of_value(h):
    """values of another kind are refused without a write"""
    e = Handle(h, h.choose('kind', ['var', 1]), h.choose('type', TYPES))
    w = World(h)
    bad = h.choose('bad', [None, 1.5, [], {}, (1,), bytearray(b'x'), object()])
    r = execute(h, w, lambda s: e.set(s, bad))
    h.check('refused', And(r[0] == 'raise', isinstance(r[1], X.InvalidParamsException)))
    h.check('nothing is written', len(writes(w)) == 0)


@unit('C06', VD)
def stored_type_of_key(h):
    w = World(h)
    bad = h.choose('bad', [None, 1.5, [], (1,), bytearray(b'x'), object()])
    depth = h.choose('depth', [1, 2])
    op = h.choose('op', ['get', 'set', 'del', 'remove', 'in', 'name', 'var name', 'array name'])

    def prog(s):
        if op == 'name':
            return DictDB(bad, s.db, int)
        if op == 'var name':
            return VarDB(bad, s.db, int)
        if op == 'array name':
            return ArrayDB(bad, s.db, int)
        d = DictDB('d', s.db, int, depth)
        if depth == 2:
            d = d['x']
        if op == 'get':
            return d[bad]
        if op == 'set':
            d[bad] = 1
        elif op == 'del':
            del d[bad]
        elif op == 'remove':
            d.remove(bad)
        else:
            return bad in d
    r = execute(h, w, prog)
    h.check('refused', And(r[0] == 'raise', isinstance(r[1], X.InvalidParamsException)))
    h.check('nothing is written', len(writes(w)) == 0)


@unit('C06', VD)
def stored_depth(h):
    """an inner dictionary is not a value"""
    w = World(h)
    depth = h.choose('depth', [2, 3])
    op = h.choose('op', ['set', 'del', 'remove', 'iterate'])
    k, kb = sym_key(h, 'k')

    def prog(s):
        d = DictDB('d', s.db, int, depth)
        if op == 'set':
            d[k] = 1
        elif op == 'del':
            del d[k]
        elif op == 'remove':
            d.remove(k)
        else:
            for x in d:
                pass
    r = execute(h, w, prog)
    h.check('refused', And(r[0] == 'raise', isinstance(r[1], X.InvalidContainerAccessException)))
    h.check('no state is touched', len(accessed(w)) == 0)


@unit('C06', 'pyexec.iconscore.icon_container_db:DictDB.__getitem__')
def stored_inner(h):
    """selecting an inner dictionary touches no state"""
    w = World(h)
    k, kb = sym_key(h, 'k')
    r = execute(h, w, lambda s: DictDB('d', s.db, int, h.choose('depth', [2, 3]))[k])
    h.check('a dictionary', And(r[0] == 'ok', isinstance(r[1], DictDB)))
    h.check('no state is touched', len(accessed(w)) == 0)


# ---- handles have no memory --------------------------------------------------------
#
# Between any two operations of a handle the state may change in any way (by
# another handle, a nested call, another invocation).  An operation of a used
# handle must do what the same operation of a new handle does.  With this, the
# contracts of the single operations above hold after every history.

def like_new(h, w, make, op1, op2, sizes=None):
    n1, n2 = (None, None) if sizes is None else sizes
    box = []

    def state(n):
        if n is not None:
            w.node.initial = lambda k: spec.I2B(n) if k == ref_key('array', [b'x']) else h.bytes('elem', n=3)
        w.node.writes = []
        w.node.init = []

    def run(s):
        d = make(s)
        state(n1)
        outcome(op1, d)
        w.engine.handle_set_values()
        state(n2)
        a = len(writes(w))
        box.append(outcome(op2, d))
        w.engine.handle_set_values()
        b = len(writes(w))
        w.node.writes = []
        box.append(outcome(op2, make(s)))
        w.engine.handle_set_values()
        box.append(writes(w)[a:b])
        box.append(writes(w)[b:])
    Prog.run = run
    r = w.invoke('run', costs={})
    h.check('the invocation is answered', And(r is not None, len(box) == 4))
    x, y, wx, wy = box
    h.check('same kind of outcome', x[0] == y[0])
    if x[0] == 'ok':
        h.check('same result', spec.same(x[1], y[1]))
    else:
        h.check('same error', type(x[1]) is type(y[1]))
    h.check('same number of writes', len(wx) == len(wy))
    for p, q in zip(wx, wy):
        h.check('same writes', And(p[0] == q[0], p[1] == q[1], spec.same(p[2], q[2])))


@unit('C06', VD)
def stored_used_handle(h):
    w = World(h)
    t = h.choose('type', [int, bytes, bool])
    kind = h.choose('kind', ['var', 1, 2])
    k = h.int('k')
    v1, e = typed(h, t, 'v1', lo=1)
    v2, e = typed(h, t, 'v2', lo=1)

    def op(name, v):
        if kind == 'var':
            return {'get': lambda d: d.get(), 'set': lambda d: d.set(v), 'del': lambda d: d.remove()}[name]
        if kind == 2:
            return {'get': lambda d: d[5][k], 'set': lambda d: d[5].__setitem__(k, v), 'del': lambda d: d[5].remove(k),
                    'has': lambda d: k in d[5]}[name]
        return {'get': lambda d: d[k], 'set': lambda d: d.__setitem__(k, v), 'del': lambda d: d.__delitem__(k),
                'has': lambda d: k in d}[name]
    names = ['get', 'set', 'del'] + ([] if kind == 'var' else ['has'])
    o1, o2 = h.choose('first', names), h.choose('second', names)
    like_new(h, w, lambda s: VarDB('x', s.db, t) if kind == 'var' else DictDB('x', s.db, t, kind),
             op(o1, v1), op(o2, v2))


@unit('C05', ' '.join(ARR.format(m) for m in ['put', 'pop', 'get', '__len__', '__setitem__', '__getitem__',
                                              '__contains__']))
def array_used_handle(h):
    w = World(h)
    n1, n2 = h.int('n1', 0, 2 ** 31), h.int('n2', 0, 2 ** 31)
    i, j = h.int('i'), h.int('j')
    u, v = h.bytes('u', lo=1), h.bytes('v', lo=1)
    w.node.on_contains = lambda d: [True, 1, 1]

    def op(name, i, v):
        return {'put': lambda d: d.put(v), 'pop': lambda d: d.pop(), 'get': lambda d: d[i],
                'set': lambda d: d.__setitem__(i, v), 'len': lambda d: d.__len__(),
                'has': lambda d: d.__contains__(v)}[name]
    names = ['put', 'pop', 'get', 'set', 'len', 'has']
    like_new(h, w, lambda s: ArrayDB(b'x', s.db, bytes), op(h.choose('first', names), i, u),
             op(h.choose('second', names), j, v), (n1, n2))
