"""Deterministic helpers: values, keys, crc32c."""
import hashlib
import struct

_T = []
for _n in range(256):
    _c = _n
    for _ in range(8):
        _c = (_c >> 1) ^ 0x82F63B78 if _c & 1 else _c >> 1
    _T.append(_c)


def crc32c(data):
    """zdb's crc32: Castagnoli polynomial, initial value 0, no final xor is
    verified against the real implementation by P21, not assumed here."""
    c = 0
    for x in data:
        c = (c >> 8) ^ _T[(c ^ x) & 0xff]
    return c


def crc32c_std(data):
    c = 0xffffffff
    for x in data:
        c = (c >> 8) ^ _T[(c ^ x) & 0xff]
    return c ^ 0xffffffff


def expand(n, seed):
    """n deterministic bytes."""
    if n <= 0:
        return b''
    if seed == 0:
        return b'\0' * n
    if seed == 1:
        return (b'\r\n$3\r\n*1' * (n // 9 + 1))[:n]
    h = hashlib.sha256(str(seed).encode()).digest()
    if n <= 32:
        return h[:n]
    return (h * (n // 32 + 1))[:n]


# the 33 bits of the generator polynomial, in the bit order of a reflected
# crc: xoring it over a message keeps the crc unchanged (same length)
_POLY = 0x11EDC6F41  # x^32 + ...


def _pattern():
    bits = [(_POLY >> (32 - i)) & 1 for i in range(33)]
    out = bytearray(5)
    for i, bit in enumerate(bits):
        if bit:
            out[i // 8] |= 1 << (i % 8)
    return bytes(out)


PATTERN = _pattern()


def collide(data, at=0):
    """A different payload with the same length and the same crc32c."""
    assert len(data) >= at + 5
    d = bytearray(data)
    for i in range(5):
        d[at + i] ^= PATTERN[i]
    return bytes(d)


assert crc32c_std(b'123456789') == 0xE3069283
assert crc32c(collide(b'hello world')) == crc32c(b'hello world')
assert crc32c_std(collide(b'hello world', 3)) == crc32c_std(b'hello world')


def value(spec):
    """[len, seed] or [len, seed, 'x'] (crc twin) or hex string -> bytes"""
    if isinstance(spec, str):
        return bytes.fromhex(spec)
    v = expand(spec[0], spec[1])
    if len(spec) > 2 and len(v) >= 5:
        v = collide(v, (spec[0] - 5) // 2)
    return v


def seqid(n):
    return struct.pack('<Q', n)


def short(b, n=40):
    if b is None:
        return 'nil'
    if isinstance(b, bytes):
        return repr(b[:n]) + ('(+%d)' % (len(b) - n) if len(b) > n else '')
    if isinstance(b, list):
        return '[' + ', '.join(short(x, n) for x in b[:12]) + (', ...' if len(b) > 12 else '') + ']'
    r = repr(b)
    return r if len(r) < 300 else r[:300] + '...'
