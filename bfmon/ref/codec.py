"""Independent codec models: hashes, Base58Check, integers, varints, script numbers."""
import hashlib

ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
_INV = {c: i for i, c in enumerate(ALPHABET)}


def sha256(b): return hashlib.sha256(bytes(b)).digest()
def dsha(b): return sha256(sha256(b))
def ripemd160(b): return hashlib.new('ripemd160', bytes(b)).digest()
def hash160(b): return ripemd160(sha256(b))
def sha1(b): return hashlib.sha1(bytes(b)).digest()


def b58enc(b):
    b = bytes(b)
    zeros = len(b) - len(b.lstrip(b'\0'))
    v = int.from_bytes(b, 'big')
    out = ''
    while v:
        v, m = divmod(v, 58)
        out = ALPHABET[m] + out
    return '1' * zeros + out


def b58dec(s):
    v = 0
    for c in s:
        if c not in _INV:
            return None
        v = v * 58 + _INV[c]
    zeros = len(s) - len(s.lstrip('1'))
    return b'\0' * zeros + v.to_bytes((v.bit_length() + 7) // 8, 'big')


def b58check(b):
    b = bytes(b)
    return b58enc(b + dsha(b)[:4])


def b58check_dec(s):
    raw = b58dec(s)
    if raw is None or len(raw) < 4 or dsha(raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


def varint(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def num_enc(n):
    """CScriptNum::serialize"""
    if n == 0:
        return b''
    a = abs(n)
    out = bytearray()
    while a:
        out.append(a & 0xff)
        a >>= 8
    if out[-1] & 0x80:
        out.append(0x80 if n < 0 else 0)
    elif n < 0:
        out[-1] |= 0x80
    return bytes(out)


class NumError(Exception):
    pass


def num_dec(b, minimal=False, size=4):
    """CScriptNum constructor"""
    b = bytes(b)
    if len(b) > size:
        raise NumError('overflow')
    if minimal and b and not (b[-1] & 0x7f) and (len(b) == 1 or not (b[-2] & 0x80)):
        raise NumError('non-minimal')
    if not b:
        return 0
    v = int.from_bytes(b, 'little')
    if b[-1] & 0x80:
        return -(v & ~(0x80 << (8 * (len(b) - 1))))
    return v


class Reader:
    def __init__(self, b):
        self.b = bytes(b)
        self.i = 0

    def read(self, n):
        if self.i + n > len(self.b):
            raise EOFError
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def le(self, n):
        return int.from_bytes(self.read(n), 'little')

    def varint(self):
        o = self.le(1)
        return o if o < 253 else self.le({253: 2, 254: 4, 255: 8}[o])
