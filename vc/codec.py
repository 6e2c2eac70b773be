"""C01: integer byte codec; RLP; contracts of the leaf encoders."""
from pv.harness import unit, contract
from pv import spec
from pv.spec import And, Or, Not, Implies, Iff

from pyexec import utils
from pyexec.ipc import proxy as ipc
from pyexec.database import db


# ---- contracts used at call sites ---------------------------------------------

@contract('pyexec.utils:int_to_bytes')
def c_i2b(h, v):
    return spec.I2B(v)


@contract('pyexec.utils:bytes_to_int')
def c_b2i(h, v):
    return spec.B2I(v)


@contract('pyexec.utils:byte_length_of_int')
def c_blen(h, n):
    return len(spec.I2B(n))


@contract('pyexec.ipc.proxy:int_to_bytes')
def c_i2b2(h, v):
    return spec.I2B(v)


@contract('pyexec.ipc.proxy:bytes_to_int')
def c_b2i2(h, v):
    return spec.B2I(v)


@contract('pyexec.database.db:rlp_encode_bytes')
def c_rlp(h, b):
    return spec.RLP(b)


# ---- the contracts proved on the bodies -----------------------------------------

def _int_codec(h, m):
    v = h.int('v')
    h.body(m.int_to_bytes)
    if m is utils:
        h.body(m.byte_length_of_int)
    b = m.int_to_bytes(v)
    h.check('result is bytes', isinstance(b, bytes))
    n = len(b)
    h.check('at least one byte', n >= 1)
    # two's complement value of the result is v (the reader of the other side)
    h.check('value', spec.B2I(b) == v)
    # minimal: one byte less could not hold v
    h.check('minimal', Or(n == 1, Not(spec.fits_signed(v, n - 1))))
    h.body(m.bytes_to_int)
    h.check('round trip', m.bytes_to_int(b) == v)


@unit('C01', 'pyexec.utils:int_to_bytes pyexec.utils:bytes_to_int pyexec.utils:byte_length_of_int',
      proves=('pyexec.utils:int_to_bytes',))
def utils_int_codec(h):
    _int_codec(h, utils)


@unit('C01', 'pyexec.ipc.proxy:int_to_bytes pyexec.ipc.proxy:bytes_to_int', proves=('pyexec.ipc.proxy:int_to_bytes',))
def ipc_int_codec(h):
    _int_codec(h, ipc)


@unit('C01 C14', 'pyexec.utils:byte_length_of_int', proves=('pyexec.utils:byte_length_of_int',))
def utils_byte_length(h):
    """the least number of bytes, which is the length of the byte form"""
    v = h.int('v')
    h.body(utils.byte_length_of_int)
    n = utils.byte_length_of_int(v)
    h.check('positive', n >= 1)
    h.check('enough', spec.fits_signed(v, n))
    h.check('least', Or(n == 1, Not(spec.fits_signed(v, n - 1))))


def _decode_any_bytes(h, m):
    b = h.bytes('b')
    h.body(m.bytes_to_int)
    v = m.bytes_to_int(b)
    h.check('reads two\'s complement big-endian', v == spec.B2I(b))


@unit('C01', 'pyexec.utils:bytes_to_int', proves=('pyexec.utils:bytes_to_int',))
def utils_bytes_to_int(h):
    _decode_any_bytes(h, utils)


@unit('C01', 'pyexec.ipc.proxy:bytes_to_int', proves=('pyexec.ipc.proxy:bytes_to_int',))
def ipc_bytes_to_int(h):
    _decode_any_bytes(h, ipc)
