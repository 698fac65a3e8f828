"""Independent secp256k1 / ECDSA model (Jacobian coordinates, stateless apart from a G table)."""
import hashlib, hmac

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def on_curve(x, y):
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


def _jdbl(p):
    x, y, z = p
    if not z or not y:
        return (1, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x3 = (m * m - 2 * s) % P
    y3 = (m * (s - x3) - 8 * y * y * y * y) % P
    return (x3, y3, 2 * y * z % P)


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    z1z1 = z1 * z1 % P
    z2z2 = z2 * z2 % P
    u1 = x1 * z2z2 % P
    u2 = x2 * z1z1 % P
    s1 = y1 * z2 * z2z2 % P
    s2 = y2 * z1 * z1z1 % P
    if u1 == u2:
        return _jdbl(p) if s1 == s2 else (1, 1, 0)
    h = (u2 - u1) % P
    r = (s2 - s1) % P
    h2 = h * h % P
    h3 = h * h2 % P
    v = u1 * h2 % P
    x3 = (r * r - h3 - 2 * v) % P
    y3 = (r * (v - x3) - s1 * h3) % P
    return (x3, y3, h * z1 * z2 % P)


def _aff(p):
    if not p[2]:
        return None
    zi = pow(p[2], -1, P)
    z2 = zi * zi % P
    return (p[0] * z2 % P, p[1] * z2 * zi % P)


def _jac(a):
    return (1, 1, 0) if a is None else (a[0], a[1], 1)


def add(a, b):
    """Affine points; None is infinity."""
    return _aff(_jadd(_jac(a), _jac(b)))


def neg(a):
    return None if a is None else (a[0], (-a[1]) % P)


def _jmul(k, a):
    k %= N
    acc = (1, 1, 0)
    if a is None or not k:
        return acc
    q = _jac(a)
    for bit in bin(k)[2:]:
        acc = _jdbl(acc)
        if bit == '1':
            acc = _jadd(acc, q)
    return acc


_TAB = None


def _gtab():
    global _TAB
    if _TAB is None:
        t = []
        base = _jac(G)
        for _ in range(64):
            row = [(1, 1, 0)]
            for _ in range(15):
                row.append(_jac(_aff(_jadd(row[-1], base))))
            t.append(row)
            for _ in range(4):
                base = _jdbl(base)
            base = _jac(_aff(base))
        _TAB = t
    return _TAB


def _jgmul(k):
    k %= N
    acc = (1, 1, 0)
    for row in _gtab():
        d = k & 15
        if d:
            acc = _jadd(acc, row[d])
        k >>= 4
    return acc


def mul(k, a):
    return _aff(_jmul(k, a))


def gmul(k):
    return _aff(_jgmul(k))


def sqrt_mod_p(a):
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None


def lift_x(x, odd):
    if not 0 <= x < P:
        return None
    y = sqrt_mod_p((x * x * x + 7) % P)
    if y is None:
        return None
    if (y & 1) != odd:
        y = P - y
    return (x, y)


def sec(pt, compressed=True):
    if compressed:
        return bytes([2 + (pt[1] & 1)]) + pt[0].to_bytes(32, 'big')
    return b'\x04' + pt[0].to_bytes(32, 'big') + pt[1].to_bytes(32, 'big')


def parse_sec(b, hybrid=False):
    """Returns (point, compressed) or None."""
    b = bytes(b)
    if len(b) == 33 and b[0] in (2, 3):
        pt = lift_x(int.from_bytes(b[1:], 'big'), b[0] & 1)
        return (pt, True) if pt else None
    if len(b) == 65 and (b[0] == 4 or (hybrid and b[0] in (6, 7))):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if not on_curve(x, y) or (b[0] != 4 and (y & 1) != (b[0] & 1)):
            return None
        return ((x, y), False)
    return None


def sign_k(d, z, k):
    R = gmul(k)
    r = R[0] % N
    s = pow(k, -1, N) * (z + r * d) % N
    return (r, s)


def verify(Q, z, r, s):
    if not (1 <= r < N and 1 <= s < N):
        return False
    w = pow(s, -1, N)
    R = _aff(_jadd(_jgmul(z * w), _jmul(r * w, Q)))
    return R is not None and R[0] % N == r


def nonce(d, z, r, s):
    """The nonce (up to sign) a signature by d was made with."""
    return pow(s, -1, N) * (z + r * d) % N


def rfc6979_k(d, z):
    """RFC 6979 with SHA-256 for a 256-bit value z (already a hash as an integer)."""
    x = d.to_bytes(32, 'big')
    h = (z % N if z >= N else z)
    h1 = h.to_bytes(32, 'big')
    V = b'\x01' * 32
    K = b'\x00' * 32
    hm = lambda key, m: hmac.new(key, m, hashlib.sha256).digest()
    K = hm(K, V + b'\x00' + x + h1)
    V = hm(K, V)
    K = hm(K, V + b'\x01' + x + h1)
    V = hm(K, V)
    while True:
        V = hm(K, V)
        k = int.from_bytes(V, 'big')
        if 1 <= k < N:
            return k
        K = hm(K, V + b'\x00')
        V = hm(K, V)


def recover(z, r, s):
    """All points whose signature of z (r, s) is, for R with x == r modulo the order."""
    out = set()
    for x, odd in ((r, 0), (r, 1), (r + N, 0), (r + N, 1)):
        R = lift_x(x, odd) if x < P else None
        if R is None:
            continue
        ri = pow(r, -1, N)
        Q = _aff(_jadd(_jmul(s * ri, R), _jgmul(-z * ri)))
        if Q is not None:
            out.add(Q)
    return out


# ---- DER ----------------------------------------------------------------------------------------

def der_int(v):
    b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
    return b'\x02' + bytes([len(b)]) + b


def der(r, s):
    body = der_int(r) + der_int(s)
    return b'\x30' + bytes([len(body)]) + body


def parse_der_strict(b):
    """(r, s) iff b is exactly the strict DER encoding of two non-negative integers, short lengths."""
    b = bytes(b)
    if len(b) < 8 or b[0] != 0x30 or b[1] != len(b) - 2 or b[1] > 0x7f or b[2] != 2:
        return None
    lr = b[3]
    if 4 + lr + 2 > len(b) or b[4 + lr] != 2:
        return None
    ls = b[5 + lr]
    if 6 + lr + ls != len(b) or not lr or not ls:
        return None
    r, s = int.from_bytes(b[4:4 + lr], 'big'), int.from_bytes(b[6 + lr:], 'big')
    return (r, s) if der(r, s) == b else None


def bip66(sig):
    """Signature plus hash type byte, as BIP66 defines."""
    sig = bytes(sig)
    return 9 <= len(sig) <= 73 and parse_der_strict(sig[:-1]) is not None


def parse_der_lax(b):
    """Port of bitcoin's ecdsa_signature_parse_der_lax (what OpenSSL-era nodes accepted)."""
    b = bytes(b)
    n = len(b)
    pos = 0
    try:
        if b[pos] != 0x30:
            return None
        pos += 1
        lb = b[pos]; pos += 1
        if lb & 0x80:
            pos += lb - 0x80
        vals = []
        for _ in range(2):
            if b[pos] != 2:
                return None
            pos += 1
            lb = b[pos]; pos += 1
            if lb & 0x80:
                lb -= 0x80
                if lb > n - pos:
                    return None
                while lb > 0 and b[pos] == 0:
                    pos += 1; lb -= 1
                if lb >= 8:
                    return None
                ln = 0
                while lb > 0:
                    ln = (ln << 8) + b[pos]; pos += 1; lb -= 1
            else:
                ln = lb
            if ln > n - pos:
                return None
            vals.append(int.from_bytes(b[pos:pos + ln], 'big'))
            pos += ln
        return tuple(vals)
    except IndexError:
        return None
