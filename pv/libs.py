"""Models of third-party functions on symbolic arguments: coincurve (secp256k1)
as uninterpreted partial functions with the documented domain, json as its
grammar over uninterpreted string literals.  With concrete arguments the real
library runs."""
import json

import z3

from . import sym, rt
from .sym import SBytes, SStr, SInt, SBool, Sym, Atom, Opq, lift, zint, fn, LEN, BY, ST, I, at_term

POINT = fn('point', BY, I)
KEYOK = fn('key_ok', BY, z3.BoolSort())
RECPOINT = fn('recovered_point', BY, BY, I)
RECOK = fn('recover_ok', BY, BY, z3.BoolSort())
KEY33 = fn('key33', I, BY)
KEY65 = fn('key65', I, BY)


class SPublicKey:
    """coincurve.PublicKey of a symbolic point"""

    def __init__(self, point):
        self.point = point

    def format(self, compressed=True):
        c = sym.ctx()
        f, n = (KEY33, 33) if rt.truth(compressed) else (KEY65, 65)
        t = f(self.point)
        if sym.once(t):
            c.fact(LEN(t) == n)
            b = at_term(t, 0)
            c.fact(z3.Or(b == 2, b == 3) if n == 33 else b == 4)
            c.assumptions.add('coincurve (secp256k1) as uninterpreted functions on its documented domain')
        return SBytes((Atom(t, f'KEY{n}', (SInt(self.point),), n),))

    def __eq__(self, o):
        return isinstance(o, SPublicKey) and SBool(self.point == o.point)

    __hash__ = None


def public_key(data, *a, **k):
    c = sym.ctx()
    if a or k:
        c.unsupported('PublicKey with a context')
    if not isinstance(data, SBytes):
        from coincurve import PublicKey
        return PublicKey(data)
    t = data.term()
    n = data.zlen()
    b = at_term(t, 0)
    c.fact(z3.Implies(KEYOK(t), z3.Or(z3.And(n == 33, z3.Or(b == 2, b == 3)),
                                      z3.And(n == 65, z3.Or(b == 4, b == 6, b == 7)))))
    if not c.decide(KEYOK(t)):
        raise ValueError('The public key could not be parsed or is invalid.')
    p = POINT(t)
    c.fact(z3.Implies(n == 33, KEY33(p) == t))
    c.fact(z3.Implies(z3.And(n == 65, b == 4), KEY65(p) == t))
    return SPublicKey(p)


def from_signature_and_message(sig, msg, hasher=MemoryError, *a, **k):
    c = sym.ctx()
    if a or k:
        c.unsupported('from_signature_and_message with a context')
    if hasher is MemoryError:
        from coincurve.utils import sha256 as hasher
    m = msg if hasher is None else rt.call(hasher, msg)
    if not isinstance(sig, (bytes, SBytes)) or not isinstance(m, (bytes, SBytes)):
        raise TypeError('initializer for ctype')
    sig, m = lift(sig), lift(m)
    if not c.decide(z3.And(sig.zlen() == 65, m.zlen() == 32)):
        raise ValueError('must be 65 / 32 bytes long.')
    ok = RECOK(sig.term(), m.term())
    if not c.decide(ok):
        raise ValueError('Failed to parse recoverable signature.')
    return SPublicKey(RECPOINT(sig.term(), m.term()))


def recovered(hash_, sig, compressed):
    """specification: the key, or None"""
    try:
        return from_signature_and_message(sig, hash_, None).format(compressed)
    except (ValueError, TypeError):
        return None


# json -------------------------------------------------------------------------

JOK = fn('json_ok', ST, z3.BoolSort())
JVAL = fn('json_value', ST, I)


def jstr(s):
    if isinstance(s, str):
        return json.dumps(s)
    c = sym.ctx()
    t = fn('json_string', ST, ST)(s.term())
    if sym.once(t):
        c.fact(sym.SLEN(t) >= s.zlen() + 2)
    return SStr((Atom(t, 'JSTR', (s,)),))


def dumps(o, **k):
    c = sym.ctx()
    sep = k.pop('separators', None) or (', ', ': ')
    if k:
        c.unsupported(f'json.dumps with {sorted(k)}')
    return _dumps(o, sep)


def _dumps(o, sep):
    add = rt.add
    if o is None:
        return 'null'
    if isinstance(o, SBool):
        return 'true' if rt.truth(o) else 'false'
    if isinstance(o, (bool, float)) or not rt.has_sym(o) and not isinstance(o, (list, tuple, dict)):
        return json.dumps(o)
    if isinstance(o, SInt):
        return sym.istr(o)
    if isinstance(o, SStr):
        return jstr(o)
    if isinstance(o, (list, tuple)):
        r = '['
        for i, e in enumerate(o):
            r = add(r, sep[0]) if i else r
            r = add(r, _dumps(e, sep))
        return add(r, ']')
    if isinstance(o, dict):
        r = '{'
        for i, (key, e) in enumerate(dict.items(o)):
            r = add(r, sep[0]) if i else r
            if isinstance(key, SInt):
                key = sym.istr(key)
            if not isinstance(key, (str, SStr)):
                if isinstance(key, Sym) or not isinstance(key, (int, float, type(None))):
                    raise TypeError('keys must be str, int, float, bool or None')
                key = list(json.loads(json.dumps({key: 0})))[0]
            r = add(add(add(r, jstr(key)), sep[1]), _dumps(e, sep))
        return add(r, '}')
    raise TypeError(f'Object of type {type(o).__name__} is not JSON serializable')


def loads(s, **k):
    c = sym.ctx()
    if k:
        c.unsupported('json.loads with options')
    if isinstance(s, SBytes):
        c.unsupported('json.loads of bytes')
    if not isinstance(s, SStr):
        raise TypeError('the JSON object must be str, bytes or bytearray')
    t = s.term()
    c.fact(z3.Implies(s.zlen() == 0, z3.Not(JOK(t))))
    if not c.decide(JOK(t)):
        raise json.JSONDecodeError('Expecting value', '', 0)
    return Opq(JVAL(t), label='json')


rt.FN[('json', 'dumps')] = lambda f, a, k: dumps(*a, **k) if rt._any_sym(a) else f(*a, **k)
rt.FN[('json', 'loads')] = lambda f, a, k: loads(*a, **k) if rt._any_sym(a) else f(*a, **k)
rt.FN[('coincurve.utils', 'sha256')] = lambda f, a, k: (sym.sha('sha256', lift(a[0])) if isinstance(a[0], Sym) else f(*a, **k))


rt.FN[('coincurve.keys', 'PublicKey.from_signature_and_message')] = \
    lambda f, a, k: from_signature_and_message(*a, **k) if rt._any_sym(a) else f(*a, **k)


def install():
    try:
        from coincurve import PublicKey as P
    except Exception:
        return
    rt.CLASSES[P] = lambda *a, **k: public_key(*a, **k) if rt._any_sym(a) else P(*a, **k)
