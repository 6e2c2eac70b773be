"""Run-time hooks of the instrumented code (symbolic back end).

With concrete operands every hook performs the ordinary Python operation.
With symbolic operands the hook applies the model of the operation; an
operation without a model ends the path as Unsupported (never silently).
"""
import builtins
import collections
import copy as _copy
import enum
import functools
import hashlib
import inspect
import operator
import re
import types
import typing

import z3

from . import sym
from .ctx import Ctx, Control, PathEnd, Unsupported
from .sym import (Sym, SInt, SBool, SBytes, SStr, Rope, SRatio, Opq, Seg, Atom, has_seg, mkint, snot, zint, zbool, lift)

HOOK = '__pv__'
LOOP_BOUND = 6
WHILE_BOUND = 12


def cur() -> Ctx:
    return Ctx.cur


# --------------------------------------------------------------------------

def enter(name):
    c = Ctx.cur
    if c is not None:
        c.covered.add(name)
        c.ticks = getattr(c, 'ticks', 0) + 1
        if c.ticks > 200000:
            c.die(Unsupported('step budget of one path'))


def mkslice(a, b, s):
    return slice(a, b, s)


def truth(x):
    if isinstance(x, Sym):
        return bool(x)
    t = type(x)
    if t in (bool, int, str, bytes, type(None)):
        return bool(x)
    if t in (list, tuple) and has_seg(x):
        return bool(mlen(x))
    if t is dict:
        return len(x) > 0 if not has_seg(x) else bool(mlen(x))
    f = getattr(t, '__bool__', None)
    if f is not None and is_instrumented(f):
        return truth(f(x))
    if f is None:
        f = getattr(t, '__len__', None)
        if f is not None and is_instrumented(f):
            return truth(ne(f(x), 0))
    return bool(x)


def not_(x):
    if isinstance(x, SBool):
        return snot(x)
    return not truth(x)


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, SBool) and isinstance(b, (bool, SBool)):
            return a == b
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a == b
        return False
    return a is b


def _keys_sym(d):
    return any(isinstance(k, Sym) for k in dict.keys(d))


def eq(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = a == b if isinstance(a, Sym) else b.__eq__(a)
        return False if r is NotImplemented else r
    if _symset(a, b):
        return set_eq(a, b)
    if type(a) is dict and type(b) is dict and (_keys_sym(a) or _keys_sym(b)):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            hit = dfind(b, k)
            if hit is MISS or not truth(eq(v, b_get(b, hit))):
                return False
        return True
    if type(a) in (list, tuple) and type(a) is type(b):
        if has_seg(a) or has_seg(b):
            cur().unsupported('equality of lists of symbolic length')
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            e = eq(x, y)
            if e is False:
                return False
            if e is not True:
                conds.append(zbool(e))
        return True if not conds else SBool(z3.And(*conds))
    if type(a) is dict and type(b) is dict:
        if a.keys() != b.keys():
            return False
        conds = []
        for k, v in a.items():
            e = eq(v, b[k])
            if e is False:
                return False
            if e is not True:
                conds.append(zbool(e))
        return True if not conds else SBool(z3.And(*conds))
    return a == b


def ne(a, b):
    f = getattr(type(a), '__ne__', None)
    if not isinstance(a, Sym) and f is not None and is_instrumented(f):
        return a != b
    return not_(eq(a, b))


def add(a, b):
    if isinstance(a, (Rope,)) or isinstance(b, Rope):
        if isinstance(a, bytearray) or isinstance(b, bytearray):
            cur().unsupported('bytearray arithmetic')
        r = None
        if isinstance(a, Rope):
            r = a.__add__(b)
        else:
            r = b.__radd__(a)
        return r
    return a + b


def iadd(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return add(a, b)
    a += b
    return a


def mul(a, b):
    if isinstance(a, SInt) and isinstance(b, (bytes, str, list, tuple, Rope)):
        return sym.seq_repeat(b, a)
    if isinstance(b, SInt) and isinstance(a, (bytes, str, list, tuple, Rope)):
        return sym.seq_repeat(a, b)
    if isinstance(a, SBool):
        a = a._i()
    if isinstance(b, SBool):
        b = b._i()
    return a * b


def mod(a, b):
    if isinstance(a, (str, bytes)):
        if has_sym(b):
            return fmt_atom()
        return a % b
    if isinstance(a, Rope):
        return fmt_atom()
    return a % b


SETS = (set, frozenset, type({}.keys()))


def _symset(a, b):
    """both are sets (or key views), and equality of elements is not decided by hashing"""
    return isinstance(a, SETS) and isinstance(b, SETS) and Ctx.cur is not None and (_set_sym(a) or _set_sym(b))


def _set_sym(s):
    return any(isinstance(e, Sym) or deep_sym_key(e) for e in s)


def _set_pick(a, b, keep):
    return [e for e in list(a) if (dfind(b, e) is not MISS) == keep]


def _set_make(a, elems):
    s = mkset(elems)
    return frozenset_of(s) if isinstance(a, frozenset) else s


def frozenset_of(s):
    with allow_hash():
        return frozenset(s)


def set_and(a, b):
    return _set_make(a, _set_pick(a, b, True))


def set_or(a, b):
    return _set_make(a, list(a) + list(b))


def set_sub(a, b):
    return _set_make(a, _set_pick(a, b, False))


def set_xor(a, b):
    return _set_make(a, _set_pick(a, b, False) + _set_pick(b, a, False))


def set_le(a, b):
    return all(dfind(b, e) is not MISS for e in list(a))


def set_eq(a, b):
    return len(a) == len(b) and set_le(a, b)


def and_(a, b):
    return set_and(a, b) if _symset(a, b) else a & b


def or_(a, b):
    if type(a) is dict and type(b) is dict and Ctx.cur is not None and (_set_sym(a) or _set_sym(b)):
        cur().unsupported('union of dicts with symbolic keys')
    return set_or(a, b) if _symset(a, b) else a | b


def sub(a, b):
    return set_sub(a, b) if _symset(a, b) else a - b


def xor(a, b):
    return set_xor(a, b) if _symset(a, b) else a ^ b


INPLACE = {'and_': (operator.iand, and_), 'or_': (operator.ior, or_), 'sub': (operator.isub, sub),
           'xor': (operator.ixor, xor)}


def inplace(op, a, b):
    native, pure = INPLACE[op]
    if isinstance(a, set) and _symset(a, b):
        r = pure(a, b)
        with allow_hash():
            a.clear()
            for e in r:
                a.add(e)
        return a
    if isinstance(a, dict) and isinstance(b, dict) and Ctx.cur is not None and (_set_sym(a) or _set_sym(b)):
        cur().unsupported('union of dicts with symbolic keys')
    return native(a, b)


def lt(a, b):
    return (len(a) < len(b) and set_le(a, b)) if _symset(a, b) else a < b


def le(a, b):
    return set_le(a, b) if _symset(a, b) else a <= b


def gt(a, b):
    return lt(b, a) if _symset(a, b) else a > b


def ge(a, b):
    return set_le(b, a) if _symset(a, b) else a >= b


def _set_method(c, s, name, a):
    args = [x if isinstance(x, SETS) else mkset(list(iterate(x))) for x in a]
    if name in ('isdisjoint', 'issubset', 'issuperset', 'symmetric_difference') and len(args) == 1:
        b = args[0]
        return {'isdisjoint': lambda: not _set_pick(s, b, True), 'issubset': lambda: set_le(s, b),
                'issuperset': lambda: set_le(b, s), 'symmetric_difference': lambda: set_xor(s, b)}[name]()
    f = {'intersection': set_and, 'union': set_or, 'difference': set_sub}.get(name)
    if f is None:
        c.unsupported(f'set.{name} with symbolic elements')
    r = _set_make(s, list(s))
    for b in args:
        r = f(r, b)
    return r


def fmt_atom():
    """A formatted text of which nothing is known."""
    c = cur()
    t = z3.Const(c.fresh('fmt'), sym.ST)
    return SStr((Atom(t, 'FMT'),))


# --------------------------------------------------------------------------
# containers with symbolic keys
# --------------------------------------------------------------------------

class _Miss:
    def __repr__(self):
        return '<missing>'


MISS = _Miss()


class KeyBox:
    """never used as a real key; documents that symbolic keys hash by id"""


def dfind(d, k):
    """The key object of d equal to k on this path (forks), or MISS."""
    c = cur()
    if not isinstance(k, Sym):
        try:
            if dict.__contains__(d, k) if isinstance(d, dict) else k in d:
                return k
        except TypeError:
            raise
        if not any(isinstance(x, Sym) for x in d):
            if deep_sym_key(k):
                for x in list(d):
                    if truth(eq(x, k)):
                        return x
            return MISS
    for x in list(d):
        if x is k:
            return x
    for x in list(d):
        if type(x) is Seg:
            c.unsupported('lookup in a dict of symbolic length')
        if truth(eq(x, k)):
            return x
    return MISS


def deep_sym_key(k):
    if isinstance(k, tuple):
        return any(isinstance(e, Sym) or deep_sym_key(e) for e in k)
    d = getattr(k, '__dict__', None)
    if d and is_instrumented_class(type(k)):
        return any(isinstance(e, Sym) or deep_sym_key(e) for e in list(d.values()))
    return False


class allow_hash:
    def __enter__(self):
        c = cur()
        if c is not None:
            c.allow_hash = getattr(c, 'allow_hash', 0) + 1

    def __exit__(self, *a):
        c = cur()
        if c is not None:
            c.allow_hash -= 1
        return False


def b_get(d, k):
    with allow_hash():
        return _identity_get(d, k)


def _identity_get(d, k):
    if isinstance(k, Sym) or deep_sym_key(k):
        for x, v in dict.items(d):
            if x is k:
                return v
        raise KeyError(k)
    return dict.__getitem__(d, k) if isinstance(d, dict) else d[k]


class SymKeyError(KeyError):
    def __str__(self):
        return 'KeyError'


def getitem(o, k):
    c = Ctx.cur
    if c is None:
        return o[k]
    if isinstance(o, Sym):
        if isinstance(o, Rope):
            return o[k]
        c.unsupported(f'subscript of {o!r}')
    if isinstance(o, dict):
        if type(o).__getitem__ is not dict.__getitem__:
            return o[k]
        if isinstance(k, Sym) or _keys_sym(o) or deep_sym_key(k):
            hit = dfind(o, k)
            if hit is MISS:
                m = getattr(type(o), '__missing__', None)
                if m is not None:
                    return m(o, k)
                raise SymKeyError('key')
            return b_get(o, hit)
        return o[k]
    if isinstance(o, (list, tuple, range, collections.deque)):
        if has_seg(o):
            c.unsupported('index into a list of symbolic length')
        if isinstance(k, SBool):
            k = k._i()
        if isinstance(k, SInt):
            n = len(o)
            for i in range(-n, n):
                if truth(k == i):
                    return o[i]
            raise IndexError(f'{type(o).__name__} index out of range')
        if isinstance(k, slice):
            k = _cslice(k)
        return o[k]
    if isinstance(o, (str, bytes)):
        if isinstance(k, SInt):
            v = k.conc()
            if v is None:
                if len(o) > 64:
                    c.unsupported('symbolic index into a long constant')
                for i in range(-len(o), len(o)):
                    if truth(k == i):
                        return o[i]
                raise IndexError('index out of range')
            k = v
        if isinstance(k, slice):
            k = _cslice(k)
        return o[k]
    if isinstance(o, type) and isinstance(o, enum.EnumMeta) and isinstance(k, Rope):
        for nm, m in o.__members__.items():
            if truth(eq(k, nm)):
                return m
        raise SymKeyError('enum')
    return o[k]


def _cslice(s):
    def cv(x):
        if isinstance(x, SInt):
            v = x.conc()
            if v is None:
                cur().unsupported('symbolic slice bound of a list')
            return v
        return x
    return slice(cv(s.start), cv(s.stop), cv(s.step))


def setitem_v(v, o, k):
    c = Ctx.cur
    if c is None:
        o[k] = v
        return
    if isinstance(o, Sym):
        raise TypeError(f"'{o.pytype.__name__}' object does not support item assignment")
    if isinstance(o, dict) and type(o).__setitem__ in (dict.__setitem__, collections.OrderedDict.__setitem__):
        if isinstance(k, Sym) or _keys_sym(o) or deep_sym_key(k):
            hit = dfind(o, k)
            with allow_hash():
                if hit is MISS:
                    type(o).__setitem__(o, k, v)
                else:
                    _identity_set(o, hit, v)
            return
        o[k] = v
        return
    if isinstance(o, list) and isinstance(k, SInt):
        n = len(o)
        for i in range(-n, n):
            if truth(k == i):
                o[i] = v
                return
        raise IndexError('list assignment index out of range')
    if isinstance(o, bytearray) and has_sym(v):
        c.unsupported('bytearray store')
    o[k] = v


def _identity_set(d, k, v):
    # dict probing compares hash(id) then identity, so this hits the same slot
    dict.__setitem__(d, k, v)


def delitem(o, k):
    c = Ctx.cur
    if c is None:
        del o[k]
        return
    if isinstance(o, dict) and type(o).__delitem__ is dict.__delitem__:
        if isinstance(k, Sym) or _keys_sym(o) or deep_sym_key(k):
            hit = dfind(o, k)
            if hit is MISS:
                raise SymKeyError('key')
            with allow_hash():
                dict.__delitem__(o, hit)
            return
    if isinstance(k, SInt):
        if isinstance(o, list):
            n = len(o)
            for i in range(-n, n):
                if truth(k == i):
                    del o[i]
                    return
            raise IndexError('list assignment index out of range')
    del o[k]


def contains(o, x):
    c = Ctx.cur
    if c is None:
        return x in o
    if isinstance(o, Sym):
        if isinstance(o, Rope):
            return _substr(o, x)
        c.unsupported(f'membership in {o!r}')
    f = getattr(type(o), '__contains__', None)
    if f is not None and is_instrumented(f):
        return f(o, x)
    if isinstance(o, (dict, set, frozenset)) or isinstance(o, (type({}.keys()),)):
        if isinstance(x, Sym) or any(isinstance(k, Sym) for k in o) or deep_sym_key(x):
            return dfind(o, x) is not MISS
        return x in o
    if isinstance(o, (list, tuple, type({}.values()), type({}.items()))):
        if type(o) in (list, tuple) and has_seg(o):
            c.unsupported('membership in a list of symbolic length')
        conds = []
        for e in o:
            r = True if e is x else eq(e, x)
            if r is True:
                return True
            if r is not False:
                conds.append(zbool(r))
        return SBool(z3.Or(*conds)) if conds else False
    if isinstance(o, range) and isinstance(x, SInt):
        if o.step == 1:
            return SBool(z3.And(x.z >= o.start, x.z < o.stop))
        c.unsupported('range membership')
    if isinstance(o, (str, bytes)) and isinstance(x, Sym):
        return _substr(lift(o), x)
    if isinstance(o, (str, bytes)):
        return x in o
    if isinstance(o, enum.EnumMeta) and isinstance(x, Sym):
        return any(truth(eq(m.value, x)) for m in o)
    if f is None and is_instrumented(getattr(type(o), '__iter__', None)):
        for e in o:
            if e is x or truth(eq(e, x)):
                return True
        return False
    if f is None and isinstance(o, types.GeneratorType):
        for e in o:
            if e is x or truth(eq(e, x)):
                return True
        return False
    return x in o


def _substr(o, x):
    c = cur()
    if isinstance(o, SBytes) and isinstance(x, (int, SInt)):
        tot = o._total()
        if tot is None or tot > 64:
            c.unsupported('byte membership')
        return any(truth(o[i] == x) for i in range(tot))
    x = lift(x)
    if x is None or x.kind != o.kind:
        raise TypeError('membership operand')
    k = x.conc()
    if k is not None and o.conc() is not None:
        return k in o.conc()
    if k is None and o.conc() is None:
        if o is x or (len(x.parts) == len(o.parts) and all(sym.same_part(p, q) for p, q in zip(o.parts, x.parts))):
            return True
    if k is not None and len(k) == 0:
        return True
    if k is not None:
        if any(isinstance(p, type(k)) and k in p for p in o.parts):
            return True
        # single character: decided per part by an uninterpreted predicate
        if len(k) == 1:
            conds = []
            for p in o.parts:
                if isinstance(p, (bytes, str)):
                    continue
                conds.append(char_in(p, k))
            return SBool(z3.Or(*conds)) if conds else False
    if o.conc() is not None and k is None:
        # constant haystack: enumerate substrings when short
        h = o.conc()
        if len(h) <= 24:
            subs = {h[i:j] for i in range(len(h)) for j in range(i, len(h) + 1)}
            return SBool(z3.Or(*[zbool(x == s) for s in sorted(subs)]))
    c.imprecise.append('substring test')
    f = sym.fn('substr' + o.kind, *(2 * [sym.BY if o.kind == 'b' else sym.ST]), z3.BoolSort())
    return SBool(f(x.term(), o.term()))


def char_in(p, ch):
    c = cur()
    ordv = ch[0] if isinstance(ch, bytes) else ord(ch)
    if p.tag == 'HEX' and ch not in sym.LOWHEX:
        return z3.BoolVal(False)
    if p.tag == 'ISTR' and ch not in '-0123456789':
        return z3.BoolVal(False)
    if p.tag == 'CHR':
        return zint(p.args[0]) == ordv
    f = sym.fn(f'has[{ordv}]', p.term.sort(), z3.BoolSort())
    r = f(p.term)
    if sym.once(r):
        i = sym.fn(f'idx[{ordv}]', p.term.sort(), z3.IntSort())(p.term)
        c.fact(z3.Implies(r, z3.And(i >= 0, i < sym.lenterm(p.term), sym.at_term(p.term, i) == ordv)))
        for k in range(3):
            c.fact(z3.Implies(z3.And(sym.lenterm(p.term) > k, sym.at_term(p.term, k) == ordv), r))
    return r


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------

def mstr(x):
    if isinstance(x, SStr):
        return x
    if isinstance(x, SBool):
        return 'True' if bool(x) else 'False'
    if isinstance(x, SInt):
        return sym.istr(x)
    if isinstance(x, Sym):
        return fmt_atom()
    t = type(x)
    f = getattr(t, '__str__', None)
    if f is not None and is_instrumented(f):
        return f(x)
    f2 = getattr(t, '__repr__', None)
    if f is object.__str__ and f2 is not None and is_instrumented(f2):
        return f2(x)
    if isinstance(x, BaseException):
        if isinstance(x, SymKeyError):
            return fmt_atom()
        if not has_sym(x.args):
            return str(x)
        if len(x.args) == 1 and not isinstance(x, KeyError):
            return mstr(x.args[0])
        return fmt_atom()
    if has_sym(x) or (t in (list, tuple, dict, set) and has_sym_deep(x)):
        return fmt_atom()
    if is_instrumented_class(t) and f is object.__str__:
        return fmt_atom()
    return str(x)


def mrepr(x):
    if isinstance(x, SInt):
        return sym.istr(x)
    if isinstance(x, SBool):
        return mstr(x)
    if isinstance(x, Sym):
        return fmt_atom()
    f = getattr(type(x), '__repr__', None)
    if f is not None and is_instrumented(f):
        return f(x)
    if has_sym(x) or has_seg(x) or (type(x) in (list, tuple, dict, set) and has_sym_deep(x)):
        return fmt_atom()
    if is_instrumented_class(type(x)):
        return fmt_atom()
    return repr(x)


def fstr(*parts):
    c = Ctx.cur
    out = ''
    for p in parts:
        if isinstance(p, str):
            s = p
        else:
            v, conv, spec = p
            if c is None:
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                s = format(v, spec)
            else:
                if conv == 114:
                    v = mrepr(v)
                elif conv == 115:
                    v = mstr(v)
                if isinstance(spec, Sym):
                    s = fmt_atom()
                elif spec == '':
                    f = getattr(type(v), '__format__', None)
                    if isinstance(v, enum.Enum) or (f is not None and f is not object.__format__ and not isinstance(v, (Sym, str, bytes, int, list, dict, tuple)) and not is_instrumented_class(type(v))):
                        s = format(v, '')
                    else:
                        s = mstr(v)
                elif isinstance(v, SInt):
                    s = _fmt_int(v, spec)
                elif isinstance(v, Sym):
                    s = fmt_atom()
                else:
                    s = format(v, spec)
        out = add(out, s) if isinstance(out, Rope) or isinstance(s, Rope) else out + s
    return out


def _fmt_int(v, spec):
    """format(int, spec): injective for the specs in use."""
    c = cur()
    t = sym.fn(f'int_fmt[{spec}]', z3.IntSort(), sym.ST)(v.z)
    if sym.once(t):
        c.fact(sym.SLEN(t) >= 1)
        m = re.fullmatch(r'0(\d+)([xd]?)', spec)
        if m:
            w = int(m.group(1))
            base = 16 if m.group(2) == 'x' else 10
            c.fact(sym.SLEN(t) >= w)
            c.fact(z3.Implies(z3.And(v.z >= 0, v.z < base ** w), sym.SLEN(t) == w))
    return SStr((Atom(t, 'IFMT:' + spec, (v,)),))


# --------------------------------------------------------------------------
# instrumentation tests
# --------------------------------------------------------------------------

def is_instrumented(f):
    if f is None:
        return False
    if isinstance(f, types.MethodType):
        f = f.__func__
    if isinstance(f, functools.partial):
        return is_instrumented(f.func)
    g = getattr(f, '__globals__', None)
    return g is not None and HOOK in g


_icls = {}


def is_instrumented_class(t):
    r = _icls.get(t)
    if r is None:
        import sys
        m = sys.modules.get(getattr(t, '__module__', None))
        r = m is not None and HOOK in m.__dict__
        if not r:
            # classes made by harness code at run time
            r = any(is_instrumented(v) for v in t.__dict__.values() if isinstance(v, types.FunctionType))
        _icls[t] = r
    return r


def has_sym(x, depth=6):
    if isinstance(x, Sym):
        return True
    t = type(x)
    if t in (int, str, bytes, bool, type(None), float):
        return False
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset, collections.deque):
        return any(type(e) is Seg or has_sym(e, depth - 1) for e in x)
    if isinstance(x, dict):
        return any(isinstance(k, Sym) or type(k) is Seg or has_sym(v, depth - 1) for k, v in dict.items(x))
    if t in (type({}.items()), type({}.values()), type({}.keys())):
        return any(has_sym(e, depth - 1) for e in x)
    if isinstance(x, BaseException):
        return any(has_sym(e, depth - 1) for e in x.args)
    return False


def has_sym_deep(x, depth=5, seen=None):
    """also looks into instances of instrumented classes"""
    if has_sym(x):
        return True
    if depth <= 0:
        return False
    if seen is None:
        seen = set()
    if id(x) in seen:
        return False
    seen.add(id(x))
    if isinstance(x, (list, tuple, set)):
        return any(has_sym_deep(e, depth - 1, seen) for e in x)
    if isinstance(x, dict):
        return any(has_sym_deep(e, depth - 1, seen) for e in x.values())
    if is_instrumented_class(type(x)):
        return any(has_sym_deep(e, depth - 1, seen) for e in vars_of(x).values())
    return False


def vars_of(x):
    d = dict(getattr(x, '__dict__', {}) or {})
    for k in type(x).__mro__:
        for s in k.__dict__.get('__slots__', ()) or ():
            if s.startswith('__') and not s.endswith('__'):
                s = f'_{k.__name__.lstrip("_")}{s}'
            if hasattr(x, s):
                d[s] = getattr(x, s)
    return d


# --------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------

def cleanup():
    c = Ctx.cur
    if c is None:
        return None
    dead, c.dead = c.dead, None
    return dead


def cleaned(dead):
    if Ctx.cur is not None and dead is not None:
        Ctx.cur.dead = dead


def call(f, /, *a, **k):
    c = Ctx.cur
    if c is None:
        return f(*a, **k)
    if c.dead is not None:
        raise c.dead
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        func = f.__func__ if t is types.MethodType else f
        spec = c.contracts.get(func) if c.contracts else None
        if spec is not None:
            byp = c.in_body.get(func)
            if byp is not True:
                if byp:
                    # the function under proof: its body once, its own contract
                    # at recursive calls (induction on the recursion)
                    c.in_body[func] = byp - 1
                    spec = None
            else:
                spec = None
        if spec is not None:
            args = ((f.__self__,) + a) if t is types.MethodType else a
            c.contract_uses[spec.name] = c.contract_uses.get(spec.name, 0) + 1
            return spec.apply(c.h, *args, **k)
        g = getattr(func, '__globals__', None)
        if g is not None and HOOK in g:
            if isinstance(f, types.MethodType) and f.__self__.__class__ in _LOGGERS:
                return None
            if func.__module__ == 'pyexec.logger.logger' and func.__name__ != '__init__':
                return False if func.__name__ == 'isDebugEnabled' else None
            return f(*a, **k)
        m = _fn_model(func)
        if m is not None:
            return m(f, a, k)
        if is_instrumented(getattr(func, '__wrapped__', None)):
            return f(*a, **k)
        if func.__module__ in PURE_PY_MODULES or func.__module__.startswith('pv.'):
            return f(*a, **k)
        if not (_any_sym(a) or _any_sym(k.values())):
            return f(*a, **k)
        c.unsupported(f'call of {getattr(func, "__module__", "?")}.{getattr(func, "__qualname__", func)}')
    if isinstance(f, type):
        return _call_class(c, f, a, k)
    m = BUILTINS.get(f) if _hashable(f) else None
    if m is not None:
        return m(*a, **k)
    if t is types.BuiltinMethodType or t is types.MethodWrapperType or t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        return _call_method(c, f, a, k)
    if isinstance(f, Sym):
        c.unsupported('call of a symbolic value')
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    cf = getattr(t, '__call__', None)
    if is_instrumented(cf):
        return f(*a, **k)
    if t.__module__ in ('operator',):
        r = _operator_obj(f, a)
        if r is not MISS:
            return r
    if t.__name__ == 'Logger' and t.__module__ == 'logging':
        return None
    if _any_sym(a) or _any_sym(k.values()):
        w = getattr(f, '__wrapped__', None)
        if is_instrumented(w):
            return f(*a, **k)
        c.unsupported(f'call of {f!r}')
    return f(*a, **k)


def _operator_obj(f, a):
    if isinstance(f, operator.itemgetter):
        ks = f.__reduce__()[1]
        r = tuple(getitem(a[0], q) for q in ks)
        return r[0] if len(r) == 1 else r
    if isinstance(f, operator.attrgetter):
        return f(*a)
    return MISS


_LOGGERS = set()
PURE_PY_MODULES = {'collections.abc', '_collections_abc', 'inspect', 'typing', 'abc', 'functools', 'dataclasses', 'contextlib', 'typing_extensions', 'enum', 'types'}


def _hashable(f):
    try:
        hash(f)
        return True
    except Control:
        raise
    except Exception:
        return False


def _any_sym(it):
    return any(has_sym(x) for x in it)


def _call_class(c, f, a, k):
    if f is type and len(a) == 1:
        return mtype(a[0])
    m = CLASSES.get(f)
    if m is not None:
        return m(*a, **k)
    if isinstance(f, enum.EnumMeta) and len(a) == 1 and not k:
        if isinstance(a[0], Sym):
            for e in f:
                if truth(eq(e.value, a[0])):
                    return e
            miss = getattr(f, '_missing_', None)
            raise ValueError(f'not a valid {f.__name__}')
        return f(a[0])
    if is_instrumented_class(f) or issubclass(f, (BaseException, tuple, Exception)):
        return f(*a, **k)
    if issubclass(f, (type,)):
        return f(*a, **k)
    if f.__module__ in ('threading', 'functools', 'collections', 'types', '_thread', 'operator', 'itertools', 'weakref', '_weakref', 'abc', 'enum', 'typing', '_operator'):
        return f(*a, **k)
    if _any_sym(a) or _any_sym(k.values()):
        c.unsupported(f'construction of {f.__module__}.{f.__qualname__}')
    return f(*a, **k)


STRUCT_METHODS = {
    list: {'append', 'extend', 'insert', 'pop', 'clear', 'reverse', 'copy', '__iter__', '__len__'},
    tuple: {'__iter__', '__len__'},
    collections.deque: {'append', 'appendleft', 'popleft', 'pop', 'clear', 'extend', '__len__', '__iter__'},
    set: {'clear', 'copy', '__len__', '__iter__'},
}


def _call_method(c, f, a, k):
    name = f.__name__
    s = getattr(f, '__self__', None)
    if s is None or isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        # unbound descriptor, e.g. str.startswith(x, ..) or int.from_bytes
        if not _any_sym(a) and not _any_sym(k.values()):
            return f(*a, **k)
        if a:
            owner = getattr(f, '__objclass__', None)
            if isinstance(a[0], Sym) and owner is a[0].pytype:
                return getattr(a[0], name)(*a[1:], **k)
            b = getattr(a[0], name, None)
            if isinstance(b, (types.BuiltinMethodType, types.MethodWrapperType)):
                return _call_method(c, b, a[1:], k)
        c.unsupported(f'descriptor {f!r}')
    if isinstance(s, type):
        key = (s, name)
        if key in CLASSMETHODS:
            return CLASSMETHODS[key](*a, **k)
        if s is dict and name == 'fromkeys':
            keys = a[0]
            if not _any_sym(a):
                return f(*a, **k)
            c.unsupported('dict.fromkeys')
        if name == '__new__':
            return f(*a, **k)
    if isinstance(s, types.ModuleType):
        m = MODFUNCS.get((s.__name__, name))
        if m is not None:
            return m(*a, **k)
        if _any_sym(a) or _any_sym(k.values()):
            c.unsupported(f'call of {s.__name__}.{name}')
        return f(*a, **k)
    if isinstance(s, dict):
        if type(s) is not dict and isinstance(f, types.MethodWrapperType) and name in DICT_BASE \
                and getattr(dict, name) is not getattr(type(s), name):
            return DICT_BASE[name](s, *a)
        dm = DICT.get(name)
        if dm is not None and type(f) is types.BuiltinMethodType and getattr(type(s), name, None) is getattr(dict, name):
            return dm(s, *a, **k)
        if dm is not None and type(s).__dict__.get(name) is None or (dm is not None and type(s) in (dict, collections.OrderedDict, collections.defaultdict)):
            return dm(s, *a, **k)
        if name in ('items', 'keys', 'values', 'clear', 'copy', '__len__', '__iter__', 'popitem', 'move_to_end'):
            return f(*a, **k)
    if isinstance(s, (list, collections.deque)):
        if name == 'append':
            s.append(*a)
            return None
        if name == 'extend':
            for e in iterate(a[0]):
                s.append(e)
            return None
        if name == 'insert' and not isinstance(a[0], Sym):
            return f(*a)
        if name == 'pop' and a and isinstance(a[0], SInt):
            v = getitem(s, a[0])
            delitem(s, a[0])
            return v
        if name in ('index', 'count', 'remove') and (has_sym(s) or _any_sym(a)):
            return _list_search(s, name, a)
        if name == 'sort' and has_sym(s):
            c.unsupported('sort of symbolic values')
        if name in STRUCT_METHODS[list] or name in STRUCT_METHODS[collections.deque]:
            return f(*a, **k)
    if isinstance(s, (tuple,)) and name in ('index', 'count') and (has_sym(s) or _any_sym(a)):
        return _list_search(s, name, a)
    if isinstance(s, set):
        if name in ('add', 'discard', 'remove') and (_any_sym(a) or has_sym(s)):
            hit = dfind(s, a[0])
            with allow_hash():
                if name == 'add':
                    if hit is MISS:
                        s.add(a[0])
                else:
                    if hit is MISS:
                        if name == 'remove':
                            raise SymKeyError('set')
                    else:
                        s.remove(hit)
            return None
        if name == 'update' and (_any_sym(a) or has_sym(s)):
            for e in iterate(a[0]):
                _call_method(c, s.add, (e,), {})
            return None
        if name in ('clear', 'copy', '__len__', '__iter__'):
            return f(*a, **k)
    if isinstance(s, SETS) and not k and (_set_sym(s) or _any_sym(a) or has_sym(a)):
        if name in ('add', 'discard', 'remove', '__contains__', 'pop'):
            return contains(s, *a) if name == '__contains__' else c.unsupported(f'set.{name}')
        return _set_method(c, s, name, a)
    if isinstance(s, (str, bytes)):
        if name == 'join' and a:
            items = list(iterate(a[0]))
            return sym.rope_join(s, items) if has_sym(items) else f(items)
        if _any_sym(a) or _any_sym(k.values()):
            if name in ('format', 'format_map'):
                return _format(s, a, k)
            if name in ('startswith', 'endswith'):
                return getattr(lift(s), name)(*a)
            if name == '__contains__':
                return contains(s, a[0])
            if name in ('__eq__', '__ne__'):
                return getattr(operator, name)(lift(s), a[0])
            c.unsupported(f'{type(s).__name__}.{name} with symbolic arguments')
        return f(*a, **k)
    if isinstance(s, Sym):
        return f(*a, **k)
    if isinstance(s, int) and (_any_sym(a) or _any_sym(k.values())):
        if name == 'to_bytes':
            return sym.int_to_bytes_builtin(s, *a, **k)
        if name.startswith('__') and a:
            op = getattr(operator, name, None)
            if op is not None:
                return op(SInt(z3.IntVal(s)), a[0])
        c.unsupported(f'int.{name}')
    if s is not None and type(s).__module__ == 're' or (s is not None and type(s).__name__ == 'Pattern'):
        if name in ('match', 'fullmatch', 'search') and _any_sym(a):
            return _re(name, s, *a)
    if name in ('__setattr__', '__getattribute__', '__init__', '__init_subclass__', '__delattr__', '__new__', '__hash__', '__reduce__', '__dir__', '__sizeof__'):
        return f(*a, **k)
    if name in ('__eq__', '__ne__') and s is not None:
        return f(*a, **k)
    if name in ('__str__', '__repr__') and s is not None:
        return mstr(s) if name == '__str__' and isinstance(s, BaseException) else f(*a, **k)
    if type(s).__module__ == '_hashlib' or type(s).__name__ in ('HASH',):
        pass
    if _any_sym(a) or _any_sym(k.values()):
        if type(s).__module__ in ('_thread', 'threading'):
            return f(*a, **k)
        if isinstance(s, types.GeneratorType):
            return f(*a, **k)
        c.unsupported(f'call of builtin {f!r}')
    return f(*a, **k)


def _list_search(s, name, a):
    n = 0
    for i, e in enumerate(s):
        if truth(eq(e, a[0])):
            if name == 'index':
                return i
            if name == 'remove':
                del s[i]
                return None
            n += 1
    if name == 'count':
        return n
    raise ValueError('not in list')


def _format(s, a, k):
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = add(out, lit) if lit else out
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            return fmt_atom()
        if spec:
            v = _fmt_int(v, spec) if isinstance(v, SInt) else (fmt_atom() if isinstance(v, Sym) else format(v, spec))
        elif conv == 'r':
            v = mrepr(v)
        else:
            v = mstr(v)
        out = add(out, v)
    return out


# dict methods -----------------------------------------------------------------

def _d_get(d, k, default=None):
    hit = dfind(d, k)
    return default if hit is MISS else b_get(d, hit)


def _d_pop(d, k, *default):
    hit = dfind(d, k)
    if hit is MISS:
        if default:
            return default[0]
        raise SymKeyError('key') if isinstance(k, Sym) else KeyError(k)
    v = b_get(d, hit)
    with allow_hash():
        dict.__delitem__(d, hit)
    return v


def _d_setdefault(d, k, v=None):
    hit = dfind(d, k)
    if hit is not MISS:
        return b_get(d, hit)
    with allow_hash():
        d[k] = v
    return v


def _d_update(d, *a, **k):
    if a:
        o = a[0]
        if isinstance(o, dict):
            for x, v in o.items():
                setitem_v(v, d, x)
        else:
            for x, v in iterate(o):
                setitem_v(v, d, x)
    for x, v in k.items():
        d[x] = v


DICT = {'get': _d_get, 'pop': _d_pop, 'setdefault': _d_setdefault, 'update': _d_update,
        '__contains__': lambda d, k: contains(d, k), '__getitem__': lambda d, k: getitem(d, k),
        '__setitem__': lambda d, k, v: setitem_v(v, d, k), '__delitem__': lambda d, k: delitem(d, k)}


def _base_get(d, k):
    hit = dfind(d, k)
    if hit is MISS:
        raise SymKeyError('key')
    return b_get(d, hit)


def _base_set(d, k, v):
    hit = dfind(d, k)
    with allow_hash():
        dict.__setitem__(d, k if hit is MISS else hit, v)


def _base_del(d, k):
    hit = dfind(d, k)
    if hit is MISS:
        raise SymKeyError('key')
    with allow_hash():
        dict.__delitem__(d, hit)


# the operations of dict itself, reached through super() from an overriding class
DICT_BASE = {'__getitem__': _base_get, '__setitem__': _base_set, '__delitem__': _base_del,
             '__contains__': lambda d, k: dfind(d, k) is not MISS}


# iteration ---------------------------------------------------------------------

class SRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        c = cur()
        i, n = self.lo, 0
        if isinstance(self.step, Sym):
            c.unsupported('range step')
        g = c.generic
        if g is not None:
            if g[2] or isinstance(self.lo, Sym) or self.lo != 0 or self.step != 1 or not truth(self.hi == g[1]):
                c.unsupported('a range that is not the one the unit speaks of')
            g[2] = 1
            yield g[0]
            return
        while True:
            more = (i < self.hi) if self.step > 0 else (i > self.hi)
            if not truth(more):
                return
            if n >= LOOP_BOUND:
                c.bounded.append(f'range loop unrolled {LOOP_BOUND} times')
                c.die(PathEnd('loop bound'))
            yield i
            i = i + self.step
            n += 1

    def __reversed__(self):
        if self.step == 1:
            return iter(SRange(self.hi - 1, self.lo - 1, -1))
        cur().unsupported('reversed range')

    def slen(self):
        if self.step != 1:
            cur().unsupported('len of range')
        d = self.hi - self.lo
        return d if truth(d > 0) else 0


def rope_iter(r):
    c = cur()
    tot = r._total()
    if tot is not None:
        if tot > 300:
            c.unsupported('iteration over a long symbolic sequence')
        for i in range(tot):
            yield r[i]
        return
    i = 0
    while True:
        if not c.decide(r.zlen() > i):
            return
        if i >= LOOP_BOUND:
            c.bounded.append(f'iteration over a byte string unrolled {LOOP_BOUND} times')
            c.die(PathEnd('loop bound'))
        yield r[i]
        i += 1


def iterate(x):
    if isinstance(x, Rope):
        return rope_iter(x)
    if isinstance(x, Sym):
        raise TypeError(f"'{x.pytype.__name__}' object is not iterable")
    f = getattr(type(x), '__iter__', None)
    if f is None and is_instrumented(getattr(type(x), '__getitem__', None)):
        def gen():
            i = 0
            while True:
                try:
                    v = x[i]
                except IndexError:
                    return
                yield v
                i += 1
        return gen()
    return iter(x)


class _Loop:
    __slots__ = ('it', 'item', 'restore')

    def __init__(self, it):
        self.it = it
        self.restore = {}

    def next(self, loc):
        c = Ctx.cur
        if c is not None:
            if c.dead is not None:
                raise c.dead
            c.ticks = getattr(c, 'ticks', 0) + 1
            if c.ticks > 200000:
                c.die(Unsupported('step budget of one path'))
        try:
            self.item = next(self.it)
        except StopIteration:
            return False
        return True


def loop(it, lid, names, tnames):
    if Ctx.cur is None:
        return _Loop(iter(it))
    return _Loop(iterate(it))


class _While:
    __slots__ = ('n', 'mark', 'total', 'lid')

    def __init__(self, lid):
        self.n, self.mark, self.total, self.lid = 0, None, 0, lid

    def head(self):
        c = Ctx.cur
        if c is None:
            return
        if c.dead is not None:
            raise c.dead
        d = len(c.trace)
        if self.mark is not None and d > self.mark:
            self.n += 1
            if self.n > WHILE_BOUND:
                c.bounded.append(f'while loop {self.lid} unrolled {WHILE_BOUND} times')
                c.die(PathEnd('loop bound'))
        self.mark = d
        self.total += 1
        if self.total > 20000:
            c.die(Unsupported(f'while loop {self.lid} does not terminate'))


def wloop(lid):
    return _While(lid)


def comp(kind, it, elt, cond, lid):
    c = Ctx.cur
    src = iter(it) if c is None else iterate(it)
    if kind == 'gen':
        def g():
            for x in src:
                if cond is None or cond(x):
                    yield elt(x)
        return g()
    if kind == 'list':
        return [elt(x) for x in src if cond is None or cond(x)]
    if kind == 'set':
        s = set()
        for x in src:
            if cond is None or cond(x):
                v = elt(x)
                if c is None:
                    s.add(v)
                else:
                    _call_method(c, s.add, (v,), {})
        return s
    d = {}
    for x in src:
        if cond is None or cond(x):
            k, v = elt(x)
            setitem_v(v, d, k)
    return d


def mkdict(pairs):
    d = {}
    for e in pairs:
        if len(e) == 1:
            if Ctx.cur is None or isinstance(e[0], dict) and not _keys_sym(e[0]) and not _keys_sym(d):
                d.update(e[0])
            else:
                for k in e[0]:
                    setitem_v(getitem(e[0], k), d, k)
        elif Ctx.cur is None:
            d[e[0]] = e[1]
        else:
            setitem_v(e[1], d, e[0])
    return d


def mkset(elts):
    s = set()
    for e in elts:
        if Ctx.cur is None:
            s.add(e)
        else:
            call(s.add, e)
    return s


# builtins ----------------------------------------------------------------------

def mtype(x):
    return x.pytype if isinstance(x, Sym) else type(x)


def misinstance(x, t):
    if isinstance(x, Sym):
        if isinstance(t, tuple):
            return any(misinstance(x, q) for q in t)
        if x.pytype is object and t is not object:
            cur().unsupported('isinstance of an opaque value')
        mc = type(t).__dict__.get('__instancecheck__') if isinstance(t, type) else None
        if is_instrumented(mc):
            return mc(t, x)
        try:
            return issubclass(x.pytype, t)
        except TypeError:
            return isinstance(x.pytype(), t)
    return isinstance(x, t)


def mlen(x):
    if isinstance(x, Rope):
        return x.slen()
    if isinstance(x, Sym):
        raise TypeError(f"object of type '{x.pytype.__name__}' has no len()")
    if isinstance(x, SRange):
        return x.slen()
    if has_seg(x):
        z = z3.IntVal(0)
        for e in x:
            z = z + (e.zlen() if type(e) is Seg else 1)
        return mkint(z)
    f = getattr(type(x), '__len__', None)
    if is_instrumented(f):
        return f(x)
    return len(x)


S2I = sym.fn('str_to_int', sym.ST, z3.IntSort())


def mint(*a, **k):
    if not a:
        return 0
    x = a[0]
    c = cur()
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, SRatio):
        return x.trunc()
    if isinstance(x, Rope):
        base = a[1] if len(a) > 1 else k.get('base', 10)
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Atom):
            p = x.parts[0]
            if p.tag == 'ISTR' and base in (10, 0):
                return p.args[0]
        return _parse_int(x, base)
    if not isinstance(x, (int, str, bytes, float)):
        f = getattr(type(x), '__int__', None) or getattr(type(x), '__index__', None)
        if is_instrumented(f):
            return f(x)
    if any(isinstance(y, Sym) for y in a[1:]):
        c.unsupported('int() base')
    return int(*a, **k)


def _parse_int(x, base):
    """int(text, base): valid or ValueError, both considered."""
    c = cur()
    x = lift(x)
    if isinstance(base, Sym):
        c.unsupported('int() base')
    if x.kind == 'b':
        c.unsupported('int(bytes)')
    # sign / 0x prefix handled as text, digits by class
    parts = list(x.parts)
    if parts and isinstance(parts[0], str):
        head = parts[0]
        neg = False
        h = head
        if h.startswith('-'):
            neg, h = True, h[1:]
        if base in (16, 0) and h[:2] in ('0x', '0X') and base == 16 or (base == 0 and h[:2] in ('0x', '0X')):
            rest = SStr(tuple(([h[2:]] if h[2:] else []) + parts[1:]))
            v = _digits(rest, 16)
            return -v if neg else v
    t = x.term()
    ok = sym.fn(f'int_ok[{base}]', sym.ST, z3.BoolSort())(t)
    cls = '0123456789abcdef' if base == 16 else '0123456789'
    digits = zbool(sym.all_in(cls, x))
    c.fact(z3.Implies(z3.And(digits, x.zlen() > 0), ok))
    c.fact(z3.Implies(x.zlen() == 0, z3.Not(ok)))
    if not c.decide(ok):
        raise ValueError(f'invalid literal for int() with base {base}')
    r = sym.fn(f'int_of[{base}]', sym.ST, z3.IntSort())(t)
    c.fact(z3.Implies(z3.And(digits, x.zlen() > 0), r >= 0))
    return SInt(r)


def _digits(x, base):
    x = lift(x)
    if x.conc() is not None:
        return int(x.conc(), base)
    c = cur()
    t = x.term()
    cls = '0123456789abcdef'
    digits = zbool(sym.all_in(cls, x))
    ok = sym.fn(f'udig_ok[{base}]', sym.ST, z3.BoolSort())(t)
    c.fact(z3.Implies(z3.And(digits, x.zlen() > 0), ok))
    c.fact(z3.Implies(x.zlen() == 0, z3.Not(ok)))
    if not c.decide(ok):
        raise ValueError(f'invalid literal for int() with base {base}')
    r = sym.fn(f'udig[{base}]', sym.ST, z3.IntSort())(t)
    c.fact(r >= 0)
    return SInt(r)


def mbool(*a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return SBool(x.z != 0)
    if isinstance(x, Rope):
        return SBool(x.zlen() > 0)
    return truth(x)


def mstr_cls(*a, **k):
    if not a:
        return ''
    if len(a) > 1 or k:
        if isinstance(a[0], SBytes):
            return a[0].decode(*a[1:], **k)
        return str(*a, **k)
    return mstr(a[0])


def mbytes(*a, **k):
    if not a:
        return b''
    x = a[0]
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SStr):
        if len(a) < 2 and not k:
            raise TypeError('string argument without an encoding')
        return x.encode(*a[1:], **k)
    if isinstance(x, (SInt,)):
        return sym.seq_repeat(b'\0', x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        out = ()
        for e in x:
            if isinstance(e, Sym):
                if not isinstance(e, (SInt, SBool)):
                    raise TypeError('not an integer')
                if not cur().decide(z3.And(zint(e) >= 0, zint(e) <= 255)):
                    raise ValueError('bytes must be in range(0, 256)')
                p = sym.int_to_bytes_builtin(SInt(zint(e)), 1, 'big', False)
                out += lift(p).parts
            else:
                out += (bytes([e]),)
        return SBytes(out).simp()
    f = getattr(type(x), '__bytes__', None)
    if is_instrumented(f):
        return f(x)
    return bytes(*a, **k)


def mrange(*a):
    if any(isinstance(x, Sym) for x in a):
        v = [x.conc() if isinstance(x, SInt) else x for x in a]
        if all(isinstance(x, int) for x in v):
            return range(*v)
        if len(a) == 1:
            return SRange(0, a[0], 1)
        return SRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return range(*a)


def mlist(*a):
    return list(iterate(a[0])) if a else []


def mtuple(*a):
    return tuple(iterate(a[0])) if a else ()


def mset(*a):
    s = set()
    if a:
        for e in iterate(a[0]):
            _call_method(cur(), s.add, (e,), {})
    return s


def mdict(*a, **k):
    d = {}
    _d_update(d, *a, **k)
    return d


def mreversed(x):
    if isinstance(x, SRange):
        return reversed(x)
    if isinstance(x, Rope):
        return iter(list(rope_iter(x))[::-1])
    return reversed(x)


def msorted(x, **k):
    lst = list(iterate(x))
    if has_sym(lst):
        cur().unsupported('sorting symbolic values')
    return sorted(lst, **k)


def _minmax(op):
    def f(*a, **k):
        if k:
            if has_sym(a) or _any_sym(k.values()):
                cur().unsupported('min/max with key')
            return (min if op == 'min' else max)(*a, **k)
        xs = list(iterate(a[0])) if len(a) == 1 else list(a)
        if not has_sym(xs):
            return (min if op == 'min' else max)(xs)
        r = xs[0]
        for x in xs[1:]:
            cond = (x < r) if op == 'min' else (x > r)
            if isinstance(cond, SBool):
                r = SInt(z3.If(cond.z, zint(x), zint(r)))
            elif cond:
                r = x
        return r
    return f


def msum(x, start=0):
    r = start
    for e in iterate(x):
        r = r + e
    return r


def mall(x):
    for e in iterate(x):
        if not truth(e):
            return False
    return True


def many(x):
    for e in iterate(x):
        if truth(e):
            return True
    return False


def mfilter(f, it):
    for e in iterate(it):
        if truth(e if f is None else call(f, e)):
            yield e


def mmap(f, *its):
    for t in zip(*[iterate(i) for i in its]):
        yield call(f, *t)


def mhash(x):
    if isinstance(x, Sym):
        return _hash_uf(x)
    if isinstance(x, tuple) and has_sym(x):
        parts = [zint(mhash(e)) for e in x]
        f = sym.fn(f'hash_tuple{len(parts)}', *([z3.IntSort()] * (len(parts) + 1)))
        return SInt(f(*parts))
    f = getattr(type(x), '__hash__', None)
    if is_instrumented(f):
        return f(x)
    return hash(x)


def _hash_uf(x):
    if isinstance(x, SInt):
        return SInt(sym.fn('hash_int', z3.IntSort(), z3.IntSort())(x.z))
    if isinstance(x, Rope):
        t = x.term()
        return SInt(sym.fn('hash_seq', t.sort(), z3.IntSort())(t))
    cur().unsupported('hash')


def mgetattr(o, name, *d):
    if isinstance(name, SStr):
        c = cur()
        for n in _attr_names(o):
            if truth(eq(name, n)):
                return getattr(o, n, *d)
        if d:
            return d[0]
        raise AttributeError(fmt_atom())
    return getattr(o, name, *d)


def mhasattr(o, name):
    if isinstance(name, SStr):
        for n in _attr_names(o):
            if truth(eq(name, n)):
                return hasattr(o, n)
        return False
    return hasattr(o, name)


def _attr_names(o):
    return sorted(set(dir(o)) | set(getattr(o, '__dict__', {})))


def mdeepcopy(x, memo=None):
    return _dcopy(x, {})


def _dcopy(x, memo):
    if isinstance(x, Sym) or type(x) is Seg:
        return x
    if id(x) in memo:
        return memo[id(x)]
    t = type(x)
    if t in (int, str, bytes, bool, type(None), float) or isinstance(x, (type, types.FunctionType, enum.Enum)):
        return x
    if t is list:
        r = []
        memo[id(x)] = r
        r.extend(_dcopy(e, memo) for e in x)
        return r
    if t is tuple:
        return tuple(_dcopy(e, memo) for e in x)
    if t is dict:
        r = {}
        memo[id(x)] = r
        with allow_hash():
            for k, v in x.items():
                r[_dcopy(k, memo)] = _dcopy(v, memo)
        return r
    if is_instrumented(getattr(t, '__deepcopy__', None)):
        return x.__deepcopy__(memo)
    if is_instrumented_class(t):
        r = t.__new__(t)
        memo[id(x)] = r
        for k, v in vars_of(x).items():
            object.__setattr__(r, k, _dcopy(v, memo))
        return r
    return _copy.deepcopy(x)


def mcopy(x):
    if isinstance(x, Sym):
        return x
    if type(x) in (list, dict, set):
        return x.copy()
    return _copy.copy(x)


def menumerate(it, start=0):
    i = start
    for e in iterate(it):
        yield i, e
        i = i + 1


def mzip(*its):
    return zip(*[iterate(i) for i in its])


def mord(x):
    if isinstance(x, SStr):
        if not truth(x.slen() == 1):
            raise TypeError('ord() expected a character')
        return SInt(sym.at_term(x.term(), 0))
    return ord(x)


def mchr(x):
    if isinstance(x, SInt):
        cur().unsupported('chr')
    return chr(x)


def mhex(x):
    if isinstance(x, SInt):
        t = sym.fn('int_hex', z3.IntSort(), sym.ST)(x.z)
        return SStr((Atom(t, 'IHEX', (x,)),))
    return hex(x)


def mabs(x):
    return abs(x)


def mdivmod(a, b):
    return a // b, a % b


def mpow(a, b, *m):
    if m and (isinstance(a, Sym) or isinstance(b, Sym)):
        cur().unsupported('modular power')
    return pow(a, b, *m)


def mcallable(x):
    return callable(x)


def mnext(*a):
    return next(*a)


def miter(x, *a):
    if a:
        return iter(x, *a)
    return iterate(x)


def missubclass(a, b):
    return issubclass(a, b)


def mround(*a):
    if _any_sym(a):
        cur().unsupported('round')
    return round(*a)


def mformat(v, spec=''):
    return fstr((v, -1, spec))


def mprint(*a, **k):
    return None


def _sha3(data=b'', **k):
    return SHasher('sha3_256', data)


def _sha256(data=b'', **k):
    return SHasher('sha256', data)


class SHasher:
    def __init__(self, name, data):
        if data is None or isinstance(data, (str, SStr, int, SInt)):
            raise TypeError('object supporting the buffer API required')
        self.name, self.data = name, data

    def update(self, d):
        self.data = add(self.data, d)

    def digest(self):
        return sym.sha(self.name, self.data)

    def hexdigest(self):
        return call(sym.hex_of, self.digest())


MODFUNCS = {
    ('_hashlib', 'openssl_sha3_256'): _sha3, ('_hashlib', 'openssl_sha256'): _sha256,
    ('_sha3', 'sha3_256'): _sha3,
}

BUILTINS = {}


def _reg(d):
    for f, m in d.items():
        BUILTINS[f] = m


_reg({
    isinstance: misinstance, len: mlen, repr: mrepr, hash: mhash, getattr: mgetattr, hasattr: mhasattr,
    abs: mabs, divmod: mdivmod, pow: mpow, sum: msum, min: _minmax('min'), max: _minmax('max'), all: mall, any: many,
    sorted: msorted, ord: mord, chr: mchr, hex: mhex, callable: mcallable, next: mnext, iter: miter,
    issubclass: missubclass, round: mround, format: mformat, print: mprint,
    hashlib.sha3_256: _sha3, hashlib.sha256: _sha256,
    setattr: setattr, id: id, delattr: delattr,
    operator.eq: eq, operator.ne: ne, operator.contains: contains, operator.getitem: getitem,
    operator.add: add, operator.not_: not_, operator.truth: truth, operator.is_: is_,
    operator.lt: lambda a, b: a < b, operator.le: lambda a, b: a <= b,
    operator.gt: lambda a, b: a > b, operator.ge: lambda a, b: a >= b,
    operator.sub: lambda a, b: a - b, operator.mul: mul, operator.floordiv: lambda a, b: a // b,
    operator.mod: mod, operator.and_: lambda a, b: a & b, operator.or_: lambda a, b: a | b,
})

CLASSES = {
    int: mint, bool: mbool, str: mstr_cls, bytes: mbytes, range: mrange, list: mlist, tuple: mtuple, set: mset,
    dict: mdict, reversed: mreversed, enumerate: menumerate, zip: mzip, filter: mfilter, map: mmap,
}


def _bytearray(*a):
    if _any_sym(a):
        return mbytes(*a)   # only used read-only; item assignment is rejected
    return bytearray(*a)


CLASSES[bytearray] = _bytearray


def _frozenset(*a):
    if _any_sym(a):
        cur().unsupported('frozenset')
    return frozenset(*a)


CLASSES[frozenset] = _frozenset


def _int_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, Rope):
        if b.kind != 'b':
            raise TypeError('cannot convert str to bytes')
        return sym.bytes_to_int_builtin(b, byteorder, signed)
    if isinstance(b, (list, tuple)) and has_sym(b):
        return _int_from_bytes(mbytes(b), byteorder, signed=signed)
    return int.from_bytes(b, byteorder, signed=signed)


def _bytes_fromhex(s):
    if isinstance(s, Rope):
        if s.kind != 's':
            raise TypeError('fromhex() argument must be str')
        return sym.from_hex(s)
    return bytes.fromhex(s)


def _dict_fromkeys(ks, v=None):
    d = {}
    for k in iterate(ks):
        setitem_v(v, d, k)
    return d


CLASSMETHODS = {(int, 'from_bytes'): _int_from_bytes, (bytes, 'fromhex'): _bytes_fromhex,
                (dict, 'fromkeys'): _dict_fromkeys}


# python-level library functions -------------------------------------------------

class _Match:
    def __init__(self, s):
        self.s = s

    def group(self, i=0):
        if i != 0:
            cur().unsupported('regex group')
        return self.s

    def __bool__(self):
        return True

    def start(self):
        return 0

    def end(self):
        return mlen(self.s)

    def span(self):
        return 0, mlen(self.s)


def _re(name, pat, s, *fl):
    c = cur()
    p = pat.pattern if hasattr(pat, 'pattern') else pat
    if not isinstance(s, Sym):
        return getattr(re, name)(pat, s, *fl) if not hasattr(pat, 'pattern') else getattr(pat, name)(s, *fl)
    if not isinstance(s, SStr):
        raise TypeError('cannot use a string pattern on a bytes-like object')
    anch = False
    q = p
    if q.startswith('^'):
        q = q[1:]
        if name == 'search':
            name = 'match'
    end = False
    if q.endswith('$') or q.endswith('\\Z'):
        end = q[-1] if q.endswith('$') else 'Z'
        q = q[:-1] if q.endswith('$') else q[:-2]
    m = re.fullmatch(r'\[([^\]\\^]+)\](\+|\*|\{(\d+)\})', q)
    if not m or name not in ('match', 'fullmatch'):
        c.unsupported(f'regular expression {p!r}')
    cls = ''
    body = m.group(1)
    i = 0
    while i < len(body):
        if i + 2 < len(body) and body[i + 1] == '-':
            cls += ''.join(chr(x) for x in range(ord(body[i]), ord(body[i + 2]) + 1))
            i += 3
        else:
            cls += body[i]
            i += 1
    cls = ''.join(sorted(set(cls)))
    low = ''.join(sorted(sym.LOWHEX))
    allin = zbool(sym.all_in(cls, s))
    n = s.zlen()
    quant = m.group(2)
    if name == 'fullmatch' or end:
        if end == '$':
            c.imprecise.append('$ also matches before a trailing newline')
        need = z3.And(allin, n > 0) if quant == '+' else (allin if quant == '*' else z3.And(allin, n == int(m.group(3))))
        return _Match(s) if c.decide(need) else None
    ml = sym.matchlen(cls, s)
    if c.decide(allin):
        if quant == '+' and not c.decide(n > 0):
            return None
        if quant == '*' or quant == '+':
            return _Match(s)
    if quant == '+':
        if not c.decide(ml > 0):
            return None
        return _Match(_prefix(s, ml))
    c.unsupported('regular expression prefix match')


def _prefix(s, ml):
    """the matched prefix: a text of length ml, shorter than s"""
    t = z3.Const(cur().fresh('match'), sym.ST)
    cur().fact(sym.SLEN(t) == ml)
    cur().fact(ml < s.zlen())
    return SStr((Atom(t, 'MATCH'),))


def _fn_model(func):
    return FN.get((func.__module__, func.__qualname__))


FN = {
    ('re', 'match'): lambda f, a, k: _re('match', *a),
    ('re', 'fullmatch'): lambda f, a, k: _re('fullmatch', *a),
    ('copy', 'deepcopy'): lambda f, a, k: mdeepcopy(*a),
    ('copy', 'copy'): lambda f, a, k: mcopy(*a),
    ('traceback', 'format_exc'): lambda f, a, k: 'traceback',
    ('traceback', 'print_exc'): lambda f, a, k: None,
    ('functools', 'reduce'): lambda f, a, k: _reduce(*a),
    ('functools', 'wraps'): lambda f, a, k: f(*a, **k),
    ('functools', 'update_wrapper'): lambda f, a, k: f(*a, **k),
}


def _reduce(f, it, *init):
    it = iterate(it)
    r = init[0] if init else next(it)
    for e in it:
        r = call(f, r, e)
    return r


BUILTINS[functools.reduce] = _reduce
