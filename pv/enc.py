"""JSON form of input vectors."""


def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {'hex': bytes(v).hex()}
    if isinstance(v, str):
        return {'str': [ord(c) for c in v]} if any(0xd800 <= ord(c) < 0xe000 for c in v) else v
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return v if abs(v) < 1 << 53 else {'int': hex(v)}
    return v


def dec(v):
    if isinstance(v, dict):
        if 'hex' in v:
            return bytes.fromhex(v['hex'])
        if 'int' in v:
            return int(v['int'], 16)
        if 'str' in v:
            return ''.join(map(chr, v['str']))
    return v


def enc_inputs(d):
    return {k: enc(v) for k, v in d.items()}


def dec_inputs(d):
    return {k: dec(v) for k, v in d.items()}
