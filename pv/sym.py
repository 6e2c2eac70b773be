"""Symbolic values: integers, booleans, byte strings, strings, opaque objects.

Python integers are mathematical integers, so SInt is a z3 Int without any
machine-arithmetic approximation.  Byte strings and strings are ropes: lists
of concrete pieces and *atoms*.  An atom is a term of an uninterpreted sort
with a length and element functions; atoms built by a known encoder (I2B, RLP,
SHA3, UTF8, HEX, ...) carry a tag, and equality of ropes is decided by the
laws of those encoders (injectivity, prefix-freeness), each of which is
written next to its rule below.
"""
import z3
from .ctx import ctx, Unsupported, Control

BY = z3.DeclareSort('Bytes')
ST = z3.DeclareSort('Str')
OB = z3.DeclareSort('Obj')
I = z3.IntSort()

LEN = z3.Function('len', BY, I)
AT = z3.Function('at', BY, I, I)
SLEN = z3.Function('slen', ST, I)
SAT = z3.Function('sat', ST, I, I)
CATB = z3.Function('cat', BY, BY, BY)
CATS = z3.Function('scat', ST, ST, ST)
P2 = z3.Function('pow2', I, I)
BL = z3.Function('bit_length', I, I)


def lenterm(t):
    return SLEN(t) if t.sort() == ST else LEN(t)


def fn(name, *sorts):
    return z3.Function(name, *sorts)


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------

def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base class of every symbolic value."""
    pytype = object

    def __hash__(self):
        c = ctx()
        if getattr(c, 'allow_hash', 0):
            return id(self)
        c.unsupported('hash of a symbolic value outside a modelled operation')

    def __index__(self):
        ctx().unsupported(f'native index of {type(self).__name__}')

    def __int__(self):
        ctx().unsupported('native int()')

    def __float__(self):
        ctx().unsupported('native float()')

    def __str__(self):
        ctx().unsupported('native str()')

    def __bytes__(self):
        ctx().unsupported('native bytes()')

    def __format__(self, spec):
        ctx().unsupported('native format()')

    def __len__(self):
        ctx().unsupported('native len()')

    def __iter__(self):
        ctx().unsupported('native iter()')

    def __reduce_ex__(self, p):
        ctx().unsupported('native pickling/copying')

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        ctx().unsupported(f'attribute {name} of {type(self).__name__}')


def zint(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def zbool(x):
    """z3 Bool of a truth value (no fork)."""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SInt):
        return x.z != 0
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SBytes, SStr)):
        return x.zlen() > 0
    return z3.BoolVal(bool(x))


class SBool(Sym):
    pytype = bool
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    __hash__ = Sym.__hash__

    def __bool__(self):
        return ctx().decide(self.z)

    def __repr__(self):
        return f'SBool({self.z})'

    def _i(self):
        return SInt(zint(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.z == zbool(o))
        if isinstance(o, (int, SInt)):
            return self._i() == o
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(z3.And(self.z, zbool(o)))
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(z3.Or(self.z, zbool(o)))
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(z3.Xor(self.z, zbool(o)))
        return self._i() ^ o
    __rxor__ = __xor__


def snot(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.z))
    return not x


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


def multiple_of(z):
    """a power of two that divides the term, by its form"""
    if z.decl().kind() == z3.Z3_OP_MUL:
        for a in z.children():
            if z3.is_int_value(a) and a.as_long():
                v = abs(a.as_long())
                return v & -v
    return 1


class SInt(Sym):
    pytype = int
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f'SInt({self.z})'

    def __bool__(self):
        return ctx().decide(self.z != 0)

    def __index__(self):
        v = self.conc()
        if v is None:
            ctx().unsupported('native index of a symbolic int')
        return v

    def conc(self):
        """The single value this can have on this path, or None."""
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        c = ctx()
        if c._check() != z3.sat:
            return None
        v = c.solver.model().eval(z, model_completion=True)
        if not z3.is_int_value(v):
            return None
        if c.valid(z == v):
            return v.as_long()
        return None

    # arithmetic
    def _bin(self, o, f):
        oz = zint(o)
        if oz is None:
            return NotImplemented
        return SInt(f(self.z, oz))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)):
            return seq_repeat(o, self)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SInt(-self.z)
    def __pos__(self): return self
    def __invert__(self): return SInt(-self.z - 1)
    def __abs__(self): return SInt(z3.If(self.z >= 0, self.z, -self.z))

    @staticmethod
    def _fdiv(a, b):
        """Python floor division; a, b z3 ints; forks on the sign of b."""
        c = ctx()
        sb = z3.simplify(b)
        if z3.is_int_value(sb):
            k = sb.as_long()
            if k == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            return a / b if k > 0 else (-a) / (-b)
        if c.decide(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return a / b if c.decide(b > 0) else (-a) / (-b)

    def __floordiv__(self, o):
        oz = zint(o)
        return NotImplemented if oz is None else SInt(self._fdiv(self.z, oz))

    def __rfloordiv__(self, o):
        oz = zint(o)
        return NotImplemented if oz is None else SInt(self._fdiv(oz, self.z))

    def __mod__(self, o):
        oz = zint(o)
        return NotImplemented if oz is None else SInt(self.z - oz * self._fdiv(self.z, oz))

    def __rmod__(self, o):
        oz = zint(o)
        return NotImplemented if oz is None else SInt(oz - self.z * self._fdiv(oz, self.z))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        oz = zint(o)
        if oz is None:
            return NotImplemented
        return SRatio(self.z, oz)

    def __pow__(self, o, m=None):
        if m is None and isinstance(o, int) and 0 <= o <= 8:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.z
            return SInt(r)
        ctx().unsupported('symbolic power')

    def __rpow__(self, o):
        if o == 2 and ctx().decide(self.z >= 0):
            return pow2(self)
        ctx().unsupported('symbolic exponent')

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return SInt(self.z * (1 << o))
        if isinstance(o, SInt) and ctx().decide(o.z >= 0):
            return SInt(self.z * pow2(o).z)
        ctx().unsupported('symbolic shift')

    def __rlshift__(self, o):
        if ctx().decide(self.z >= 0):
            return SInt(zint(o) * pow2(self).z)
        ctx().unsupported('symbolic shift')

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return SInt(self.z / z3.IntVal(1 << o))
        ctx().unsupported('symbolic shift')

    @staticmethod
    def _andc(z, m):
        if m < 0:
            return z - SInt._andc(z, ~m)
        r = z3.IntVal(0)
        k = 0
        if m == 0:
            return r
        # contiguous low mask
        if (m & (m + 1)) == 0:
            return z % (m + 1)
        while m >> k:
            if (m >> k) & 1:
                r = r + ((z / (1 << k)) % 2) * (1 << k)
            k += 1
        return r

    def __and__(self, o):
        if isinstance(o, SBool):
            o = o._i()
        if isinstance(o, int):
            return SInt(self._andc(self.z, int(o)))
        ctx().unsupported('symbolic &')
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int):
            o = int(o)
            return SInt(self.z + o - self._andc(self.z, o))
        if isinstance(o, SInt):
            for a, b in ((self.z, o.z), (o.z, self.z)):
                m = multiple_of(b)
                if m > 1 and ctx().decide(z3.And(a >= 0, a < m)):
                    return SInt(a + b)
        ctx().unsupported('symbolic |')
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int):
            o = int(o)
            return SInt(self.z + o - 2 * self._andc(self.z, o))
        ctx().unsupported('symbolic ^')
    __rxor__ = __xor__

    # comparison
    def _cmp(self, o, f):
        oz = zint(o)
        if oz is None:
            return NotImplemented
        return SBool(f(self.z, oz))

    def __eq__(self, o):
        oz = zint(o)
        return False if oz is None else SBool(self.z == oz)

    def __ne__(self, o):
        oz = zint(o)
        return True if oz is None else SBool(self.z != oz)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    # int methods
    def bit_length(self):
        return bit_length(self)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        return int_to_bytes_builtin(self, length, byteorder, signed)

    def __int__(self):
        ctx().unsupported('native int()')

    @property
    def value(self):
        ctx().unsupported('.value of an int')


class SRatio(Sym):
    """Result of int / int, only good for int(...)."""
    pytype = float

    def __init__(self, a, b):
        self.a, self.b = a, b

    __hash__ = Sym.__hash__

    def trunc(self):
        c = ctx()
        # float division of integers is exact enough to truncate correctly
        # while the operand is below 2**53 (checked on the path, recorded as
        # an assumption otherwise)
        lim = z3.And(self.a >= 0, self.a < 2 ** 53, self.b > 0, self.b < 2 ** 53)
        if not c.valid(lim):
            c.assumptions.add('true division of integers: operands assumed in [0, 2^53)')
            c.assume(lim)
        return SInt(self.a / self.b)


# powers of two, bit length ------------------------------------------------

def pow2(e):
    if isinstance(e, int):
        return 2 ** e
    c = ctx()
    z = z3.simplify(e.z)
    if z3.is_int_value(z):
        return 2 ** z.as_long()
    t = P2(z)
    known = c.memo.setdefault('pow2', [])
    for e2, t2 in known:
        if e2.eq(z):
            return SInt(t)
    # defining facts, and monotonicity against every other power in play
    c.fact(z3.Implies(z >= 0, t >= 1))
    for k in range(0, 9):
        c.fact((z == k) == z3.And(z >= 0, t == 2 ** k)) if k < 1 else c.fact(z3.Implies(z == k, t == 2 ** k))
    for e2, t2 in known:
        c.fact(z3.Implies(z3.And(z >= 0, z <= e2), t <= t2))
        c.fact(z3.Implies(z3.And(e2 >= 0, e2 <= z), t2 <= t))
        c.fact(z3.Implies(z3.And(z >= 0, z < e2), 2 * t <= t2))
        c.fact(z3.Implies(z3.And(e2 >= 0, e2 < z), 2 * t2 <= t))
    for k in (7, 8, 15, 16, 31, 53, 63):
        c.fact(z3.Implies(z >= k, t >= 2 ** k))
        c.fact(z3.Implies(z3.And(z >= 0, z <= k), t <= 2 ** k))
    known.append((z, t))
    return SInt(t)


BL_STEPS = (1, 7, 8, 15, 16, 24, 31, 32, 40, 48, 53, 56, 63, 64, 127, 128, 255, 256)


def bit_length(v):
    if isinstance(v, int):
        return v.bit_length()
    c = ctx()
    t = BL(v.z)
    seen = c.memo.setdefault('bl', set())
    if v.z.get_id() not in seen:
        seen.add(v.z.get_id())
        c.memo.setdefault('keep', []).append(v.z)
        a = z3.If(v.z >= 0, v.z, -v.z)
        c.fact(t >= 0)
        c.fact((v.z == 0) == (t == 0))
        hi = pow2(SInt(t)).z
        lo = pow2(SInt(t - 1)).z
        c.fact(z3.Implies(v.z != 0, z3.And(lo <= a, a < hi)))
        for k in BL_STEPS:
            c.fact((t <= k) == (a < 2 ** k))
    return SInt(t)


# --------------------------------------------------------------------------
# ropes
# --------------------------------------------------------------------------

class Atom:
    __slots__ = ('term', 'tag', 'args', 'klen')

    def __init__(self, term, tag, args=(), klen=None):
        self.term, self.tag, self.args, self.klen = term, tag, args, klen

    def __repr__(self):
        return f'{self.tag}({self.term})'


def atom_len(a):
    if a.klen is not None:
        return z3.IntVal(a.klen)
    return lenterm(a.term)


def _is_conc(p):
    return isinstance(p, (bytes, str))


def norm_parts(parts):
    out = []
    for p in parts:
        if _is_conc(p):
            if len(p) == 0:
                continue
            if out and _is_conc(out[-1]):
                out[-1] = out[-1] + p
                continue
            out.append(p)
        else:
            if out and not _is_conc(out[-1]):
                q = out[-1]
                if q.tag == 'SLICE' and p.tag == 'SLICE' and q.args[0].term.eq(p.args[0].term) \
                        and q.args[2] is not None and q.args[2] == p.args[1]:
                    out[-1] = mk_slice(q.args[0], q.args[1], p.args[2])
                    continue
            out.append(p)
    return tuple(out)


def mk_slice(base, lo, hi):
    """base[lo:hi] of an atom; 0 <= lo <= hi <= len known on this path;
    hi None means the end."""
    c = ctx()
    if lo == 0 and (hi is None or (base.klen is not None and hi == base.klen)):
        return base
    if base.tag == 'SLICE':
        b0, l0, h0 = base.args
        return mk_slice(b0, l0 + lo, (l0 + hi) if hi is not None else h0)
    if hi is not None and base.klen is not None and hi == base.klen:
        hi = None
    sort = base.term.sort()
    f = fn('slice' if sort == BY else 'sslice', sort, I, I, sort)
    t = f(base.term, z3.IntVal(lo), z3.IntVal(-1 if hi is None else hi))
    kl = None
    if hi is not None:
        kl = hi - lo
    elif base.klen is not None:
        kl = base.klen - lo
    a = Atom(t, 'SLICE', (base, lo, hi), kl)
    if once(t):
        c.fact(lenterm(t) == (z3.IntVal(kl) if kl is not None else atom_len(base) - lo))
        if kl is not None and kl <= 2:
            for k in range(kl):
                c.fact(at_term(t, k) == at_term(base.term, lo + k))
    return a


def once(t):
    c = ctx()
    s = c.memo.setdefault('once', {})
    i = t.get_id()
    if i in s:
        return False
    s[i] = t
    return True


def at_term(t, k):
    c = ctx()
    f = AT if t.sort() == BY else SAT
    r = f(t, z3.IntVal(k) if isinstance(k, int) else k)
    if once(r):
        c.fact(z3.And(r >= 0, r <= (255 if t.sort() == BY else 0x10ffff)))
        d = c.memo.get('digits', {}).get(t.get_id())
        if d is not None and isinstance(k, int) and 0 <= k < d[1]:
            # a byte of to_bytes, by repeated division as in the definition
            q = d[0]
            for _ in range(d[1] - 1 - k):
                q = q / 256
            c.fact(r == q % 256)
    return r


def const_term(p):
    c = ctx()
    m = c.memo.setdefault('const', {})
    if p in m:
        return m[p]
    sort = BY if isinstance(p, bytes) else ST
    t = z3.Const(('b:' if sort == BY else 's:') + repr(p), sort)
    m[p] = t
    c.fact(lenterm(t) == len(p))
    if len(p) <= 64:
        for i, ch in enumerate(p):
            c.fact(at_term(t, i) == (ch if isinstance(ch, int) else ord(ch)))
    return t


def part_term(p):
    return const_term(p) if _is_conc(p) else p.term


def parts_term(parts, kind):
    if not parts:
        return const_term(b'' if kind == 'b' else '')
    t = part_term(parts[-1])
    for p in reversed(parts[:-1]):
        f = CATB if kind == 'b' else CATS
        h = part_term(p)
        n = f(h, t)
        if once(n):
            ctx().fact(lenterm(n) == lenterm(h) + lenterm(t))
        t = n
    return t


def part_len(p):
    return z3.IntVal(len(p)) if _is_conc(p) else atom_len(p)


def part_klen(p):
    return len(p) if _is_conc(p) else p.klen


def known_len(p):
    """Constant length of a part on this path, or None (asks the solver)."""
    k = part_klen(p)
    if k is not None:
        return k
    v = SInt(atom_len(p)).conc()
    return v


def zlen(parts):
    t = z3.IntVal(0)
    for p in parts:
        t = t + part_len(p)
    return z3.simplify(t)


INJECTIVE = {'I2B', 'BE', 'SHA3', 'SHA2', 'RLP', 'UTF8', 'HEX', 'ISTR', 'TB', 'APP'}


def same_part(a, b):
    if _is_conc(a) or _is_conc(b):
        return type(a) is type(b) and a == b
    return a.term.eq(b.term)


def seq_eq(pa, pb, depth=0):
    """Condition (z3 Bool) under which two normalised ropes are equal."""
    c = ctx()
    a, b = list(norm_parts(pa)), list(norm_parts(pb))
    conds = []
    for _ in range(200):
        while a and b and same_part(a[-1], b[-1]):
            a.pop(), b.pop()
        while a and b and same_part(a[0], b[0]):
            a.pop(0), b.pop(0)
        if not a and not b:
            return z3.And(*conds) if conds else z3.BoolVal(True)
        if not a or not b:
            rest = a or b
            if any(_is_conc(p) for p in rest):
                return z3.BoolVal(False)
            return z3.And(*conds, *[atom_len(p) == 0 for p in rest])
        ha, hb = a[0], b[0]
        if _is_conc(ha) and _is_conc(hb):
            n = min(len(ha), len(hb))
            if ha[:n] != hb[:n]:
                return z3.BoolVal(False)
            a[0:1] = [ha[n:]] if len(ha) > n else []
            b[0:1] = [hb[n:]] if len(hb) > n else []
            continue
        ta, tb = a[-1], b[-1]
        if _is_conc(ta) and _is_conc(tb):
            n = min(len(ta), len(tb))
            if ta[-n:] != tb[-n:]:
                return z3.BoolVal(False)
            a[-1:] = [ta[:-n]] if len(ta) > n else []
            b[-1:] = [tb[:-n]] if len(tb) > n else []
            continue
        if len(a) == 1 and len(b) == 1:
            conds.append(atom_eq(ha, hb))
            return z3.And(*conds)
        if not _is_conc(ha) and not _is_conc(hb):
            # RLP is prefix-free and injective (contract of rlp_encode_bytes)
            if ha.tag == 'RLP' and hb.tag == 'RLP':
                conds.append(atom_eq(ha, hb))
                a.pop(0), b.pop(0)
                continue
            # one is a slice of the other: cut the longer one
            cut = _slice_cut(ha, hb)
            if cut:
                a[0:1], b[0:1] = cut
                continue
        if _is_conc(ha) != _is_conc(hb) and (hb if _is_conc(ha) else ha).tag == 'RLP':
            cc, rr = (a, b) if _is_conc(ha) else (b, a)
            if isinstance(cc[0], bytes):
                d = rlp_prefix(cc[0])
                if d is not None:
                    conds.append(eq_value(rr[0].args[0], d[0]))
                    cc[0:1] = [cc[0][d[1]:]] if len(cc[0]) > d[1] else []
                    rr.pop(0)
                    continue
        ka, kb = known_len(ha), known_len(hb)
        if ka is not None and kb is not None:
            if ka == kb:
                conds.append(atom_eq(ha, hb))
                a.pop(0), b.pop(0)
            elif ka < kb:
                b[0:1] = cut_part(hb, ka)
            else:
                a[0:1] = cut_part(ha, kb)
            continue
        ka, kb = known_len(a[-1]), known_len(b[-1])
        if ka is not None and kb is not None:
            if ka == kb:
                conds.append(atom_eq(a[-1], b[-1]))
                a.pop(), b.pop()
            elif ka < kb and _is_conc(b[-1]):
                b[-1:] = [b[-1][:-ka], b[-1][-ka:]] if ka else [b[-1]]
                if not ka:
                    a.pop()
            elif kb < ka and _is_conc(a[-1]):
                a[-1:] = [a[-1][:-kb], a[-1][-kb:]] if kb else [a[-1]]
                if not kb:
                    b.pop()
            else:
                break
            continue
        # equal lengths entailed
        if not _is_conc(ha) and not _is_conc(hb) and c.valid(atom_len(ha) == atom_len(hb)):
            conds.append(atom_eq(ha, hb))
            a.pop(0), b.pop(0)
            continue
        # (p + x == p' + y with |x| == |y|) handled from the tail
        if not _is_conc(a[-1]) and not _is_conc(b[-1]) and c.valid(atom_len(a[-1]) == atom_len(b[-1])):
            conds.append(atom_eq(a[-1], b[-1]))
            a.pop(), b.pop()
            continue
        break
    # outside the decided fragment: an unconstrained truth value
    kind = 'b' if any(isinstance(p, bytes) or (isinstance(p, Atom) and p.term.sort() == BY) for p in pa + pb) else 's'
    x, y = parts_term(tuple(a), kind), parts_term(tuple(b), kind)
    e = z3.Bool(c.fresh('eq?'))
    c.fact(z3.Implies(e, zlen(a) == zlen(b)))
    c.fact(z3.Implies(x == y, e))
    c.imprecise.append('equality of concatenations outside the decided fragment')
    return z3.And(*conds, e)


def _slice_cut(ha, hb):
    def base(p):
        return p.args if p.tag == 'SLICE' else (p, 0, None)
    ba, la, xa = base(ha)
    bb, lb, xb = base(hb)
    if not ba.term.eq(bb.term) or la != lb:
        return None
    if xa == xb:
        return None
    if xa is None:
        return [mk_slice(ba, la, xb), mk_slice(ba, xb, None)], [hb]
    if xb is None:
        return [ha], [mk_slice(bb, lb, xa), mk_slice(bb, xa, None)]
    if xa < xb:
        return [ha], [mk_slice(bb, lb, xa), mk_slice(bb, xa, xb)]
    return [mk_slice(ba, la, xb), mk_slice(ba, xb, xa)], [hb]


def cut_part(p, k):
    if k == 0:
        return [p]
    if _is_conc(p):
        return [p[:k], p[k:]]
    return [mk_slice(p, 0, k), mk_slice(p, k, None)]


def atom_eq(x, y):
    """Equality of two parts (atoms or concrete pieces)."""
    c = ctx()
    if same_part(x, y):
        return z3.BoolVal(True)
    if _is_conc(x) and _is_conc(y):
        return z3.BoolVal(x == y)
    if _is_conc(x):
        x, y = y, x
    if _is_conc(y):
        return atom_const_eq(x, y)
    if x.tag == y.tag and x.tag in INJECTIVE:
        cond = args_eq(x, y)
        if cond is not None:
            c.fact(cond == (x.term == y.term))
            return cond
    kx, ky = x.klen, y.klen
    if kx is not None and ky is not None and kx != ky:
        return z3.BoolVal(False)
    return x.term == y.term


def args_eq(x, y):
    if len(x.args) != len(y.args):
        return z3.BoolVal(False)
    cs = []
    for p, q in zip(x.args, y.args):
        e = eq_value(p, q)
        cs.append(e)
    return z3.And(*cs) if cs else z3.BoolVal(True)


def eq_value(p, q):
    """z3 Bool for equality of two rope/int arguments."""
    if isinstance(p, (SBytes, SStr)) or isinstance(q, (SBytes, SStr)):
        pp = lift(p)
        qq = lift(q)
        if pp is None or qq is None or pp.kind != qq.kind:
            return z3.BoolVal(False)
        return seq_eq(pp.parts, qq.parts)
    zp, zq = zint(p), zint(q)
    if zp is not None and zq is not None:
        return zp == zq
    if isinstance(p, Opq) and isinstance(q, Opq):
        return p.term == q.term
    return z3.BoolVal(p == q)


def atom_const_eq(x, p):
    """atom == concrete piece."""
    c = ctx()
    if x.klen is not None and x.klen != len(p):
        return z3.BoolVal(False)
    t = x.tag
    cond = None
    if t == 'I2B':
        v = int.from_bytes(p, 'big', signed=True)
        n = max(1, ((v + (v < 0)).bit_length() + 8) // 8)
        cond = (zint(x.args[0]) == v) if (len(p) == n) else z3.BoolVal(False)
    elif t == 'UTF8':
        try:
            cond = eq_value(x.args[0], p.decode('utf-8'))
        except UnicodeDecodeError:
            cond = z3.BoolVal(False)
    elif t == 'RLP':
        d = rlp_decode(p)
        cond = z3.BoolVal(False) if d is None else eq_value(x.args[0], d)
    elif t == 'HEX':
        try:
            d = bytes.fromhex(p)
            cond = eq_value(x.args[0], d) if d.hex() == p else z3.BoolVal(False)
        except ValueError:
            cond = z3.BoolVal(False)
    elif t == 'ISTR':
        try:
            v = int(p)
            cond = (zint(x.args[0]) == v) if str(v) == p else z3.BoolVal(False)
        except ValueError:
            cond = z3.BoolVal(False)
    elif t in ('SHA3', 'SHA2') and DIGESTS.get(p, ('',))[0] == t:
        cond = eq_value(x.args[0], DIGESTS[p][1])
    ct = const_term(p)
    if cond is None:
        if len(p) <= 64:
            cond = z3.And(atom_len(x) == len(p),
                          *[at_term(x.term, i) == (ch if isinstance(ch, int) else ord(ch)) for i, ch in enumerate(p)])
        else:
            cond = x.term == ct
            return cond
    c.fact(cond == (x.term == ct))
    return cond


def rlp_prefix(b):
    """(payload, consumed) of the canonical RLP string b starts with."""
    h = b[0]
    n = 1 if h < 0x80 else h - 0x7f
    if h > 0xb7:
        if h > 0xbf or len(b) < h - 0xb6:
            return None
        n = 1 + (h - 0xb7) + int.from_bytes(b[1:1 + h - 0xb7], 'big')
    if len(b) < n:
        return None
    d = rlp_decode(b[:n])
    return None if d is None else (d, n)


def rlp_decode(b):
    """bytes -> payload when b is exactly one canonical RLP string."""
    if len(b) == 0:
        return None
    h = b[0]
    if h < 0x80:
        return b if len(b) == 1 else None
    if h <= 0xb7:
        n = h - 0x80
        if len(b) != 1 + n or (n == 1 and b[1] < 0x80):
            return None
        return b[1:]
    if h <= 0xbf:
        k = h - 0xb7
        if len(b) < 1 + k or b[1] == 0:
            return None
        n = int.from_bytes(b[1:1 + k], 'big')
        return b[1 + k:] if (len(b) == 1 + k + n and n > 55) else None
    return None


def lift(x):
    if isinstance(x, (SBytes, SStr)):
        return x
    if isinstance(x, bytes):
        return SBytes((x,) if x else ())
    if isinstance(x, bytearray):
        return None
    if isinstance(x, str):
        return SStr((x,) if x else ())
    return None


class Rope(Sym):
    __slots__ = ('parts',)
    kind = None

    def __init__(self, parts):
        self.parts = norm_parts(parts)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f'{type(self).__name__}{list(self.parts)}'

    def conc(self):
        if not self.parts:
            return self.empty
        if len(self.parts) == 1 and _is_conc(self.parts[0]):
            return self.parts[0]
        return None

    def simp(self):
        v = self.conc()
        return self if v is None else v

    def zlen(self):
        return zlen(self.parts)

    def slen(self):
        return mkint(self.zlen())

    def term(self):
        return parts_term(self.parts, self.kind)

    def __bool__(self):
        return ctx().decide(self.zlen() > 0)

    def __eq__(self, o):
        if type(o) is not type(self) and not isinstance(o, self.pytype):
            return False
        o = lift(o)
        if o is None:
            ctx().unsupported('comparison with bytearray')
        return SBool(seq_eq(self.parts, o.parts))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __add__(self, o):
        o = self._same(o)
        if o is None:
            raise TypeError(f'can only concatenate {self.pytype.__name__}')
        return type(self)(self.parts + o.parts).simp()

    def __radd__(self, o):
        o = self._same(o)
        if o is None:
            raise TypeError(f'can only concatenate {self.pytype.__name__}')
        return type(self)(o.parts + self.parts).simp()

    def _same(self, o):
        o = lift(o)
        return o if o is not None and o.kind == self.kind else None

    def __mul__(self, n):
        return seq_repeat(self, n)
    __rmul__ = __mul__

    def _total(self):
        """constant total length on this path or None"""
        z = z3.simplify(self.zlen())
        if z3.is_int_value(z):
            return z.as_long()
        return SInt(z).conc()

    def __getitem__(self, k):
        c = ctx()
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, SInt):
            v = k.conc()
            if v is None:
                if len(self.parts) == 1 and not _is_conc(self.parts[0]):
                    n = self.zlen()
                    if not c.decide(z3.And(k.z >= -n, k.z < n)):
                        raise IndexError('index out of range')
                    i = z3.If(k.z < 0, k.z + n, k.z)
                    return self._elem_term(at_term(self.parts[0].term, i))
                c.unsupported('symbolic index into a concatenation')
            k = v
        n = self.zlen()
        if k < 0:
            tot = self._total()
            if tot is None:
                if not c.decide(n >= -k):
                    raise IndexError('index out of range')
                # last elements: only within the last part
                p = self.parts[-1]
                if _is_conc(p) and len(p) >= -k:
                    return self._elem_conc(p[k])
                if not _is_conc(p) and c.valid(atom_len(p) >= -k):
                    return self._elem_term(at_term(p.term, atom_len(p) + k))
                c.unsupported('negative index')
            k += tot
            if k < 0:
                raise IndexError('index out of range')
        if not c.decide(n > k):
            raise IndexError('index out of range')
        off = k
        for p in self.parts:
            pk = part_klen(p)
            if pk is None:
                if not c.decide(atom_len(p) > off):
                    pk = known_len(p)
                    if pk is None:
                        c.unsupported('index beyond a part of unknown length')
                    off -= pk
                    continue
                return self._elem_term(at_term(p.term, off))
            if off < pk:
                return self._elem_conc(p[off]) if _is_conc(p) else self._elem_term(at_term(p.term, off))
            off -= pk
        raise IndexError('index out of range')

    def _slice(self, s):
        c = ctx()
        if s.step not in (None, 1):
            c.unsupported('extended slice')
        lo, hi = s.start, s.stop
        lo = 0 if lo is None else lo
        tot = None
        for v in (lo, hi):
            if isinstance(v, int) and v < 0:
                tot = self._total()
                if tot is None:
                    return self._slice_neg(lo, hi)
        if isinstance(lo, SInt):
            v = lo.conc()
            if v is None:
                c.unsupported('symbolic slice bound')
            lo = v
        if isinstance(hi, SInt):
            v = hi.conc()
            if v is None:
                if c.valid(hi.z == self.zlen()):
                    hi = None
                else:
                    c.unsupported('symbolic slice bound')
            else:
                hi = v
        if lo < 0:
            lo = max(0, lo + tot)
        if hi is not None and hi < 0:
            hi = max(0, hi + tot)
        n = self.zlen()
        if hi is not None and not c.decide(n >= hi):
            hi = None
        if hi is not None and hi <= lo:
            return self.empty
        if not c.decide(n >= lo):
            return self.empty
        out, off = [], 0
        for p in self.parts:
            pk = part_klen(p)
            a = max(0, lo - off)
            b = None if hi is None else hi - off
            if b is not None and b <= 0:
                break
            if pk is None:
                ln = atom_len(p)
                if b is not None and c.valid(ln >= b):
                    if a < b:
                        out.append(mk_slice(p, a, b))
                    break
                if a > 0 and not c.valid(ln >= a):
                    pk = known_len(p)
                    if pk is None:
                        c.unsupported('slice across a part of unknown length')
                    a = min(a, pk)
                    if a < pk:
                        out.append(mk_slice(p, a, None if b is None else min(b, pk)))
                    off += pk
                    continue
                if b is None:
                    out.append(mk_slice(p, a, None))
                    # length of this part matters for the offset of the next
                    lo = off + a      # everything after is included
                    k2 = known_len(p)
                    off += k2 if k2 is not None else a
                    if k2 is None:
                        lo = 0
                        off = 0
                    continue
                pk = known_len(p)
                if pk is None:
                    c.unsupported('slice across a part of unknown length')
            if a < pk:
                e = pk if b is None else min(b, pk)
                if e > a:
                    out.append(p[a:e] if _is_conc(p) else mk_slice(Atom(p.term, p.tag, p.args, pk), a, e))
            off += pk
        return type(self)(tuple(out)).simp()

    def _slice_neg(self, lo, hi):
        c = ctx()
        # x[-k:] of a single atom, or x[:-k] with a concrete tail
        if isinstance(hi, int) and hi < 0 and lo == 0:
            p = self.parts[-1]
            k = -hi
            if _is_conc(p) and len(p) >= k:
                return type(self)(self.parts[:-1] + (p[:-k],)).simp()
        if hi is None and isinstance(lo, int) and lo < 0:
            p = self.parts[-1]
            k = -lo
            if _is_conc(p) and len(p) >= k:
                return p[-k:]
            pk = known_len(p)
            if pk is not None and pk >= k:
                return type(self)((mk_slice(p, pk - k, None),)).simp()
        c.unsupported('negative slice of a value of unknown length')

    def startswith(self, p, *r):
        if r:
            ctx().unsupported('startswith with offsets')
        if isinstance(p, tuple):
            for q in p:
                if self.startswith(q):
                    return True
            return False
        p = lift(p)
        k = p._total()
        if k is None:
            ctx().unsupported('startswith symbolic')
        q = p.conc()
        if q and self.parts and not _is_conc(self.parts[0]) and self.parts[0].tag == 'ISTR' and isinstance(q, str):
            # decimal digits after an optional sign
            t = (q[1:] if q[0] == '-' else q)
            if not all(x in '0123456789' for x in t[:1]):
                if len(self.parts) == 1 or t is q and q[0] not in '0123456789':
                    return False
            elif q == '-':
                return SBool(zint(self.parts[0].args[0]) < 0)
            elif len(self.parts) == 1 and not all(x in '0123456789' for x in t):
                return False
        if q and isinstance(q, str) and len(self.parts) == 1 and not _is_conc(self.parts[0]) \
                and self.parts[0].tag == 'HEX' and not all(x in LOWHEX for x in q):
            return False
        if not ctx().decide(self.zlen() >= k):
            return False
        return lift(self[:k]) == p

    def endswith(self, p, *r):
        p = lift(p)
        k = p._total()
        if r or k is None:
            ctx().unsupported('endswith')
        if k == 0:
            return True
        if not ctx().decide(self.zlen() >= k):
            return False
        return lift(self[-k:]) == p

    def __contains__(self, x):
        ctx().unsupported('substring test')

    def __lt__(self, o):
        ctx().unsupported('ordering of symbolic sequences')
    __le__ = __gt__ = __ge__ = __lt__


class SBytes(Rope):
    pytype = bytes
    kind = 'b'
    empty = b''
    __slots__ = ()
    __hash__ = Sym.__hash__

    def _elem_conc(self, v):
        return v

    def _elem_term(self, t):
        return SInt(t)

    def decode(self, encoding='utf-8', errors='strict'):
        _utf8(encoding)
        if errors == 'strict':
            return utf8_decode(self)
        try:
            return utf8_decode(self)
        except UnicodeDecodeError:
            ctx().unsupported('decode errors mode')

    def hex(self, *a):
        if a:
            ctx().unsupported('hex with separator')
        return hex_of(self)

    def join(self, it):
        return rope_join(self, it)


class SStr(Rope):
    pytype = str
    kind = 's'
    empty = ''
    __slots__ = ()
    __hash__ = Sym.__hash__

    def _elem_conc(self, v):
        return v

    def _elem_term(self, t):
        c = ctx()
        a = Atom(fn('chr', I, ST)(t), 'CHR', (SInt(t),), 1)
        if once(a.term):
            c.fact(SLEN(a.term) == 1)
            c.fact(SAT(a.term, z3.IntVal(0)) == t)
        return SStr((a,))

    def encode(self, encoding='utf-8', errors='strict'):
        _utf8(encoding)
        return utf8_encode(self)

    def join(self, it):
        return rope_join(self, it)

    def lower(self):
        ctx().unsupported('lower')

    def __format__(self, spec):
        ctx().unsupported('native format()')


def _utf8(e):
    if not isinstance(e, str) or e.lower().replace('_', '-') not in ('utf-8', 'utf8'):
        ctx().unsupported(f'encoding {e!r}')


def rope_join(sep, it):
    sep = lift(sep)
    out = ()
    first = True
    for x in it:
        x = lift(x)
        if x is None or x.kind != sep.kind:
            raise TypeError('sequence item: expected str/bytes instance')
        if not first:
            out += sep.parts
        out += x.parts
        first = False
    return type(sep)(out).simp()


def seq_repeat(x, n):
    c = ctx()
    if isinstance(n, SInt):
        v = n.conc()
        if v is None:
            if isinstance(x, bytes) and len(x) == 1:
                # k copies of one byte
                if c.decide(n.z <= 0):
                    return b''
                f = fn('rep', I, I, BY)
                t = f(z3.IntVal(x[0]), n.z)
                if once(t):
                    c.fact(LEN(t) == n.z)
                    c.fact(at_term(t, 0) == x[0])
                return SBytes((Atom(t, 'REP', (x[0], n)),))
            c.unsupported('symbolic repetition')
        n = v
    if isinstance(x, Rope):
        return type(x)(x.parts * max(0, int(n))).simp()
    return x * int(n)


# encoders ------------------------------------------------------------------

def _uf_atom(name, tag, sorts, args, zargs, klen=None):
    t = fn(name, *sorts)(*zargs)
    return Atom(t, tag, args, klen), once(t)


FBS = fn('from_bytes_signed', BY, I)
FBU = fn('from_bytes_unsigned', BY, I)


def I2B(v):
    """Minimal two's-complement big-endian encoding (contract of int_to_bytes)."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, SBool):
        v = v._i()
    if isinstance(v, int):
        n = ((v + (v < 0)).bit_length() + 8) // 8
        return v.to_bytes(n, 'big', signed=True)
    v = mkint(v.z)
    if isinstance(v, int):
        return I2B(v)
    c = ctx()
    a, new = _uf_atom('I2B', 'I2B', (I, BY), (v,), (v.z,))
    if new:
        t = a.term
        c.fact(LEN(t) >= 1)
        c.fact(FBS(t) == v.z)
        c.fact((LEN(t) == 1) == z3.And(v.z >= -128, v.z <= 127))
        c.fact((LEN(t) <= 2) == z3.And(v.z >= -32768, v.z <= 32767))
        c.fact(z3.Implies(LEN(t) == 1, at_term(t, 0) == z3.If(v.z >= 0, v.z, v.z + 256)))
    return SBytes((a,))


def int_to_bytes_builtin(v, n, byteorder, signed):
    c = ctx()
    if byteorder != 'big':
        c.unsupported('little endian')
    if isinstance(signed, SBool):
        signed = bool(signed)
    nz = zint(n)
    if c.decide(nz < 0):
        raise ValueError('length argument must be non-negative')
    vz = zint(v)
    if signed:
        if c.decide(nz == 0):
            if c.decide(vz == 0):
                return b''
            raise OverflowError('int too big to convert')
        half = pow2(mkint(8 * nz - 1))
        hz = zint(half)
        fits = z3.And(-hz <= vz, vz < hz)
    else:
        if c.decide(vz < 0):
            raise OverflowError("can't convert negative int to unsigned")
        full = zint(pow2(mkint(8 * nz)))
        fits = vz < full
    if not c.decide(fits):
        raise OverflowError('int too big to convert')
    f = fn('to_bytes_s' if signed else 'to_bytes_u', I, I, BY)
    t = f(vz, nz)
    nn = mkint(nz)
    kl = nn if isinstance(nn, int) else SInt(nz).conc()
    if once(t):
        if kl is not None and kl <= 32:
            c.memo.setdefault('digits', {})[t.get_id()] = (vz, kl, t)
        c.fact(LEN(t) == nz)
        c.fact((FBS if signed else FBU)(t) == vz)
        if kl == 1:
            c.fact(at_term(t, 0) == z3.If(vz >= 0, vz, vz + 256))
    return SBytes((Atom(t, 'TB', (v if is_sym(v) else int(v), n if is_sym(n) else int(n), bool(signed)), kl),))


def bytes_to_int_builtin(b, byteorder, signed):
    c = ctx()
    if byteorder != 'big':
        c.unsupported('little endian')
    if isinstance(b, Rope):
        v = b.conc()
        if v is not None:
            b = v
    if isinstance(b, bytes):
        return int.from_bytes(b, 'big', signed=signed)
    if len(b.parts) == 1 and isinstance(b.parts[0], Atom):
        a = b.parts[0]
        if a.tag == 'I2B' and signed:
            v = a.args[0]
            return v
        if a.tag == 'TB' and a.args[2] == bool(signed):
            return a.args[0]
    t = b.term()
    n = b.zlen()
    r = (FBS if signed else FBU)(t)
    if once(r):
        if signed:
            half = zint(pow2(mkint(8 * n - 1)))
            c.fact(z3.Implies(n == 0, r == 0))
            c.fact(z3.Implies(n > 0, z3.And(-half <= r, r < half)))
            c.fact(z3.Implies(n == 1, r == z3.If(at_term(t, 0) >= 128, at_term(t, 0) - 256, at_term(t, 0))))
            # to_bytes is the inverse on the same length
            f = fn('to_bytes_s', I, I, BY)
            c.fact(z3.Implies(n > 0, f(r, n) == t))
        else:
            full = zint(pow2(mkint(8 * n)))
            c.fact(z3.And(0 <= r, z3.Implies(n >= 0, r < full)))
            c.fact(z3.Implies(n == 0, r == 0))
            c.fact(z3.Implies(n == 1, r == at_term(t, 0)))
            f = fn('to_bytes_u', I, I, BY)
            c.fact(f(r, n) == t)
    return SInt(r)


UTF8 = fn('utf8', ST, BY)
UTF8D = fn('utf8_decode', BY, ST)


def utf8_encode(s):
    if isinstance(s, str):
        return s.encode('utf-8')
    out = ()
    for p in s.parts:
        if _is_conc(p):
            out += (p.encode('utf-8'),)
            continue
        if p.tag == 'UTF8D':
            out += p.args[0].parts
            continue
        t = UTF8(p.term)
        if once(t):
            c = ctx()
            c.fact(UTF8D(t) == p.term)
            c.fact(z3.And(LEN(t) >= SLEN(p.term), LEN(t) <= 4 * SLEN(p.term), SLEN(p.term) >= 0))
        kl = p.klen if p.tag in ('HEX', 'ISTR') else None
        if p.tag in ('HEX', 'ISTR') and once(LEN(t)):
            ctx().fact(LEN(t) == SLEN(p.term))
        out += (Atom(t, 'UTF8', (SStr((p,)),), kl),)
    return SBytes(out).simp()


VALID_UTF8 = fn('valid_utf8', BY, z3.BoolSort())


def utf8_decode(b):
    out = ()
    for p in b.parts:
        if _is_conc(p):
            out += (p.decode('utf-8'),)
        elif p.tag == 'UTF8':
            out += p.args[0].parts
        else:
            if len(b.parts) != 1:
                ctx().unsupported('decoding a concatenation')
            c = ctx()
            if not c.decide(VALID_UTF8(p.term)):
                raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
            t = UTF8D(p.term)
            if once(t):
                c.fact(UTF8(t) == p.term)
                c.fact(z3.And(SLEN(t) >= 0, LEN(p.term) >= SLEN(t), LEN(p.term) <= 4 * SLEN(t)))
            out += (Atom(t, 'UTF8D', (SBytes((p,)),)),)
    return SStr(out).simp()


HEXF = fn('hex', BY, ST)
FROMHEX = fn('fromhex', ST, BY)
HEXOK = fn('fromhex_ok', ST, z3.BoolSort())


def matchlen(cls, s):
    """length of the longest prefix of s whose characters are all in cls"""
    c = ctx()
    t = s.term()
    f = fn(f'matchlen[{cls}]', ST, I)
    r = f(t)
    if once(r):
        c.fact(z3.And(r >= 0, r <= SLEN(t)))
    return r


LOWHEX = '0123456789abcdef'


def all_in(cls, s):
    """SBool: every character of s is in cls (cls: a sorted string)."""
    if isinstance(s, str):
        return all(ch in cls for ch in s)
    c = ctx()
    conds = []
    for p in s.parts:
        if _is_conc(p):
            if not all(ch in cls for ch in p):
                return False
        elif p.tag == 'HEX' and set(LOWHEX) <= set(cls):
            pass
        else:
            q = SStr((p,))
            conds.append(matchlen(cls, q) == SLEN(p.term))
    if len(s.parts) > 1:
        r = matchlen(cls, s)
        c.fact((r == SLEN(s.term())) == z3.And(*conds)) if conds else c.fact(r == SLEN(s.term()))
    return SBool(z3.And(*conds)) if conds else True


def hex_of(b):
    if isinstance(b, bytes):
        return b.hex()
    c = ctx()
    out = ()
    for p in b.parts:
        if _is_conc(p):
            out += (p.hex(),)
            continue
        if p.tag == 'FROMHEX' and c.valid(zbool(all_in(LOWHEX, p.args[0]))):
            out += p.args[0].parts
            continue
        t = HEXF(p.term)
        if once(t):
            c.fact(SLEN(t) == 2 * atom_len(p))
            c.fact(matchlen(LOWHEX, SStr((Atom(t, 'HEX', (SBytes((p,)),)),))) == SLEN(t))
            c.fact(FROMHEX(t) == p.term)
            c.fact(HEXOK(t))
        out += (Atom(t, 'HEX', (SBytes((p,)),), None if p.klen is None else 2 * p.klen),)
    return SStr(out).simp()


def from_hex(s):
    if isinstance(s, str):
        return bytes.fromhex(s)
    c = ctx()
    out = ()
    if len(s.parts) > 1 and any(len(p) % 2 if _is_conc(p) else p.tag != 'HEX' for p in s.parts):
        # read as a whole
        low = zbool(all_in(LOWHEX, s))
        n = s.zlen()
        w = s.term()
        c.fact(z3.Implies(z3.And(low, n % 2 == 0), HEXOK(w)))
        c.fact(z3.Implies(z3.And(low, n % 2 == 1), z3.Not(HEXOK(w))))
        if not c.decide(HEXOK(w)):
            raise ValueError('non-hexadecimal number found in fromhex() arg')
        t = FROMHEX(w)
        if once(t):
            c.fact(2 * LEN(t) <= n)
            c.fact(LEN(t) >= 0)
            c.fact(z3.Implies(low, z3.And(2 * LEN(t) == n, HEXF(t) == w)))
        return SBytes((Atom(t, 'FROMHEX', (s,)),)).simp()
    for p in s.parts:
        if _is_conc(p):
            out += (bytes.fromhex(p),)
        elif p.tag == 'HEX':
            out += p.args[0].parts
        else:
            if len(s.parts) > 1:
                c.unsupported('fromhex of a concatenation')
            low = zbool(all_in(LOWHEX, s))
            n = SLEN(p.term)
            c.fact(z3.Implies(z3.And(low, n % 2 == 0), HEXOK(p.term)))
            c.fact(z3.Implies(z3.And(low, n % 2 == 1), z3.Not(HEXOK(p.term))))
            if not c.decide(HEXOK(p.term)):
                raise ValueError('non-hexadecimal number found in fromhex() arg')
            t = FROMHEX(p.term)
            if once(t):
                c.fact(2 * LEN(t) <= n)
                c.fact(LEN(t) >= 0)
                c.fact(z3.Implies(low, z3.And(2 * LEN(t) == n, HEXF(t) == p.term)))
            out += (Atom(t, 'FROMHEX', (SStr((p,)),)),)
    return SBytes(out).simp()


DIGESTS = {}     # digest of a constant -> (algorithm, constant)


def sha(name, b):
    tag = {'sha3_256': 'SHA3', 'sha256': 'SHA2'}.get(name)
    if tag is None:
        ctx().unsupported(f'hash {name}')
    b = lift(b)
    if b.conc() is not None:
        import hashlib
        d = getattr(hashlib, name)(b.conc()).digest()
        DIGESTS[d] = (tag, b.conc())
        return d
    c = ctx()
    t = fn(name, BY, BY)(b.term())
    if once(t):
        c.fact(LEN(t) == 32)
        c.assumptions.add(f'{name} treated as injective (collision-free)')
    return SBytes((Atom(t, tag, (b,), 32),))


def RLP(b):
    """Spec encoder: canonical RLP of a byte string (contract of rlp_encode_bytes)."""
    b = lift(b)
    if b.conc() is not None:
        return rlp_encode(b.conc())
    c = ctx()
    x = b.term()
    t = fn('rlp', BY, BY)(x)
    if once(t):
        c.fact(z3.And(LEN(t) >= 1, LEN(t) >= b.zlen()))
    return SBytes((Atom(t, 'RLP', (b,)),))


def BE(x):
    """big-endian bytes of a non-negative integer, no leading zeros:
    BE(0) = b'', BE(x) = BE(x // 256) + byte(x % 256) for x > 0"""
    if isinstance(x, int):
        return x.to_bytes((x.bit_length() + 7) // 8, 'big')
    z = x.z
    t = fn('BE', I, BY)(z)
    if once(t):
        c = ctx()
        n = LEN(t)
        c.fact(n >= 0)
        c.fact((n == 0) == (z == 0))
        for k in range(1, 9):
            c.fact((n <= k) == (z < 256 ** k))
        c.fact(FBU(t) == z)
    return SBytes((Atom(t, 'BE', (x,)),))


def rlp_encode(b):
    if len(b) == 1 and b[0] < 0x80:
        return b
    if len(b) <= 55:
        return bytes([0x80 + len(b)]) + b
    n = len(b)
    lb = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0xb7 + len(lb)]) + lb + b


def istr(v):
    """str(int)"""
    if isinstance(v, SInt):
        c = ctx()
        t = fn('int_to_str', I, ST)(v.z)
        if once(t):
            c.fact(SLEN(t) >= 1)
            c.fact(fn('str_to_int', ST, I)(t) == v.z)
        return SStr((Atom(t, 'ISTR', (v,)),))
    return str(v)


# opaque values ---------------------------------------------------------------

class Opq(Sym):
    """A value the code under verification may only pass along."""

    def __init__(self, term, pytype=object, label=''):
        self.term = term
        self.pytype = pytype
        self.label = label

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f'Opq({self.term})'

    def __eq__(self, o):
        if isinstance(o, Opq):
            return SBool(self.term == o.term)
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __bool__(self):
        ctx().unsupported('truth value of an opaque value')


class Seg:
    """A stretch of symbolic length inside a list or dict: elements
    elem(lo) .. elem(hi-1).  For dicts an element is a (key, value) pair."""

    def __init__(self, fid, lo, hi, elem):
        self.fid, self.lo, self.hi, self.elem = fid, lo, hi, elem

    def zlen(self):
        return zint(self.hi) - zint(self.lo)

    def __repr__(self):
        return f'Seg({self.fid},{self.lo},{self.hi})'


def has_seg(x):
    t = type(x)
    if t is list or t is tuple:
        return any(type(e) is Seg for e in x)
    if isinstance(x, dict):
        return any(type(e) is Seg for e in dict.keys(x))
    return False


# models -> inputs --------------------------------------------------------------

def concretize(model, inputs, choices):
    out = {}
    used = {}
    serial = [0]

    def iv(t):
        v = model.eval(t, model_completion=True)
        return v.as_long() if z3.is_int_value(v) else 0

    consts = {}
    for d in model.decls():
        nm = d.name()
        if nm.startswith('b:') or nm.startswith('s:'):
            try:
                import ast
                consts[str(model[d])] = ast.literal_eval(nm[2:])
            except Exception:
                pass

    for name, (kind, term) in inputs.items():
        if kind == 'int':
            out[name] = iv(term)
        elif kind == 'bool':
            out[name] = z3.is_true(model.eval(term, model_completion=True))
        elif kind in ('bytes', 'str'):
            el = str(model.eval(term, model_completion=True))
            if el in consts and isinstance(consts[el], bytes if kind == 'bytes' else str):
                out[name] = consts[el]
                continue
            n = max(0, iv(lenterm(term)))
            n = min(n, 2_000_000)
            f = AT if kind == 'bytes' else SAT
            vals = [iv(f(term, z3.IntVal(i))) for i in range(min(n, 48))]
            if kind == 'bytes':
                b = bytearray(v % 256 for v in vals) + bytearray(n - len(vals))
                key = (kind, bytes(b))
                while key in used and used[key] != el and n > 0:
                    serial[0] += 1
                    b[-1] = serial[0] % 256
                    if n > 1:
                        b[-2] = serial[0] // 256 % 256
                    key = (kind, bytes(b))
                    if serial[0] > 2000:
                        break
                used[key] = el
                out[name] = bytes(b)
            else:
                s = [chr(v) if 32 <= v < 0xd800 else chr(97 + v % 26) for v in vals] + ['a'] * (n - len(vals))
                key = (kind, ''.join(s))
                while key in used and used[key] != el and n > 0:
                    serial[0] += 1
                    s[-1] = chr(97 + serial[0] % 26)
                    if n > 1:
                        s[-2] = chr(97 + serial[0] // 26 % 26)
                    key = (kind, ''.join(s))
                    if serial[0] > 2000:
                        break
                used[key] = el
                out[name] = ''.join(s)
    for k, v in choices.items():
        out[k] = v
    return out
