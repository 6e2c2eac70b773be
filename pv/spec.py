"""Specification functions, usable on symbolic and on concrete values.

These are the mathematical vocabulary of the contracts.  On concrete values
they are independent reference implementations (they do not call /repo)."""
import hashlib
import sys


def _s():
    c = sys.modules.get('pv.ctx')
    if c is None or c.Ctx.cur is None:
        return None
    from . import sym
    return sym


def I2B(v):
    """minimal two's complement big-endian bytes"""
    s = _s()
    if s is not None:
        return s.I2B(v)
    v = int(v)
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return (v % (1 << (8 * n))).to_bytes(n, 'big')


def B2I(b):
    s = _s()
    if s is not None:
        return s.bytes_to_int_builtin(b, 'big', True)
    v = 0
    for x in b:
        v = v * 256 + x
    if b and b[0] >= 128:
        v -= 1 << (8 * len(b))
    return v


def SHA3(b):
    s = _s()
    return s.sha('sha3_256', b) if s is not None else hashlib.sha3_256(b).digest()


def SHA2(b):
    s = _s()
    return s.sha('sha256', b) if s is not None else hashlib.sha256(b).digest()


def RLP(b):
    s = _s()
    if s is not None:
        return s.RLP(b)
    n = len(b)
    if n == 1 and b[0] < 128:
        return bytes(b)
    if n < 56:
        return bytes([128 + n]) + b
    lb = b''
    while n:
        lb = bytes([n % 256]) + lb
        n //= 256
    return bytes([183 + len(lb)]) + lb + b


def BE(x):
    """big-endian, no leading zeros"""
    s = _s()
    if s is not None:
        return s.BE(x)
    b = b''
    while x:
        b = bytes([x % 256]) + b
        x //= 256
    return b


def byte(x):
    s = _s()
    if s is not None and s.is_sym(x):
        return s.int_to_bytes_builtin(x, 1, 'big', False)
    return bytes([x])


def UTF8(x):
    s = _s()
    return s.utf8_encode(s.lift(x)) if s is not None and s.is_sym(x) else x.encode('utf-8')


def HEX(b):
    s = _s()
    return s.hex_of(b) if s is not None else b.hex()


def cat(*xs):
    sy = _s() is not None
    r = xs[0]
    for x in xs[1:]:
        if sy:
            from . import rt
            r = rt.add(r, x)
        else:
            r = r + x
    return r


# logical connectives that do not fork ------------------------------------------

def And(*xs):
    s = _s()
    if s is None:
        return all(bool(x) for x in xs)
    import z3
    return s.SBool(z3.And(*[s.zbool(x) for x in xs]))


def Or(*xs):
    s = _s()
    if s is None:
        return any(bool(x) for x in xs)
    import z3
    return s.SBool(z3.Or(*[s.zbool(x) for x in xs]))


def Not(x):
    s = _s()
    if s is None:
        return not x
    import z3
    return s.SBool(z3.Not(s.zbool(x)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    s = _s()
    if s is None:
        return bool(a) == bool(b)
    return s.SBool(s.zbool(a) == s.zbool(b))


def Ite(c, a, b):
    """integer if-then-else without forking"""
    s = _s()
    if s is None:
        return a if c else b
    import z3
    return s.SInt(z3.If(s.zbool(c), s.zint(a), s.zint(b)))


def same(a, b):
    """a and b are the same type and equal (deep)."""
    s = _s()
    if s is None:
        return _same_native(a, b)
    from . import rt
    return _same_sym(rt, s, a, b)


def _same_native(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same_native(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b or not _same_native(v, b[k]):
                return False
        return {type(k) for k in a} == {type(k) for k in b}
    return a == b


def _same_sym(rt, s, a, b):
    if rt.mtype(a) is not rt.mtype(b):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return And(True, *[_same_sym(rt, s, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        r = [True]
        for k, v in a.items():
            hit = rt.dfind(b, k)
            if hit is rt.MISS:
                return False
            r.append(_same_sym(rt, s, v, rt.b_get(b, hit)))
        return And(*r)
    return rt.eq(a, b)


def fits_signed(v, n):
    """v fits in n two's complement bytes (n >= 0)"""
    s = _s()
    if s is None:
        return v == 0 if n == 0 else -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))
    import z3
    nz, vz = s.zint(n), s.zint(v)
    half = s.zint(s.pow2(s.mkint(8 * nz - 1)))
    return s.SBool(z3.If(nz <= 0, vz == 0, z3.And(-half <= vz, vz < half)))


# secp256k1 ---------------------------------------------------------------------

P256 = 2 ** 256 - 2 ** 32 - 977
N256 = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G256 = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
        0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def ec_add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P256 == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P256)
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P256)
    x = (m * m - a[0] - b[0]) % P256
    return x, (m * (a[0] - x) - a[1]) % P256


def ec_mul(k, a):
    r = None
    k %= N256
    while k:
        if k & 1:
            r = ec_add(r, a)
        a = ec_add(a, a)
        k >>= 1
    return r


def ec_lift(x, odd):
    if x >= P256:
        return None
    y2 = (x ** 3 + 7) % P256
    y = pow(y2, (P256 + 1) // 4, P256)
    if y * y % P256 != y2:
        return None
    return x, y if y % 2 == odd else P256 - y


def ec_format(q, compressed):
    x = q[0].to_bytes(32, 'big')
    return bytes([2 + q[1] % 2]) + x if compressed else b'\x04' + x + q[1].to_bytes(32, 'big')


def ec_parse(b):
    if len(b) == 33 and b[0] in (2, 3):
        return ec_lift(int.from_bytes(b[1:], 'big'), b[0] % 2)
    if len(b) == 65 and b[0] in (4, 6, 7):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P256 or y >= P256 or (y * y - x ** 3 - 7) % P256 or (b[0] != 4 and b[0] % 2 != y % 2):
            return None
        return x, y
    return None


def KEYFORM(data, compressed):
    """the key in the given form, or None when data is not a public key"""
    s = _s()
    if s is not None and s.is_sym(data):
        from . import libs
        try:
            return libs.public_key(data).format(compressed)
        except ValueError:
            return None
    q = ec_parse(data)
    return None if q is None else ec_format(q, compressed)


def RECOVER(msg, sig, compressed):
    """the key that signed the 32-byte hash msg (ECDSA public key recovery)"""
    s = _s()
    if s is not None and (s.is_sym(msg) or s.is_sym(sig)):
        from . import libs
        return libs.recovered(msg, sig, compressed)
    if not isinstance(msg, bytes) or not isinstance(sig, bytes) or len(msg) != 32 or len(sig) != 65:
        return None
    r, t, v = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:64], 'big'), sig[64]
    if v > 3 or not 0 < r < N256 or not 0 < t < N256:
        return None
    q = ec_lift(r + (N256 if v & 2 else 0), v & 1)
    if q is None:
        return None
    i = pow(r, -1, N256)
    z = int.from_bytes(msg, 'big')
    q = ec_add(ec_mul(t * i, q), ec_mul(-z * i, G256))
    return None if q is None else ec_format(q, compressed)


def SIGN(secret, nonce, msg):
    """a recoverable signature of msg"""
    k = nonce % (N256 - 1) + 1
    p = ec_mul(k, G256)
    r = p[0] % N256
    s = pow(k, -1, N256) * (int.from_bytes(msg, 'big') + r * secret) % N256
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([p[1] % 2 + (2 if p[0] >= N256 else 0)])


def run_source(src, ns):
    """define the classes of a concrete source; ns may name symbolic values,
    which the source only passes on"""
    exec(src, ns)


def define(src, ns):
    """like run_source, and the functions of the source can be executed on
    symbolic values"""
    if _s() is None:
        exec(src, ns)
        return
    from . import instr, rt
    ns[instr.HOOK] = rt
    exec(instr.transform(src, '<source>', ns['__name__']), ns)
