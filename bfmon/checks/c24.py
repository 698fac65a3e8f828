from ..lib import *
from bitforge import utils
from bitforge.utils import sign, verify, possible_public_pairs_for_signature, public_pair_for_x, is_public_pair_valid, public_pair_for_secret_exponent
from bitforge.utils import generator_secp256k1 as G, CurveFp, Point
from bitforge.utils.ecdsa import deterministic_generate_k
import hashlib, hmac

ID = 'C24'
RULE = ('signatures of boundary and random secrets and values; candidate (r, s) of every relation to a valid one, including crafted ones whose verification passes through '
        'equal, inverse or infinite intermediate points; all (r, s, value, key) on small prime-order curves; non-trivial: distinct (key, value, signature)')
ASSUMPTIONS = ['public points given to verify are on the curve']


def value(rng):
    return gen.pick(rng, (3, lambda: rng.getrandbits(256)), (2, lambda: rng.choice((0, 1, 2, N - 2, N - 1, N, N + 1, 2**256 - 1, 2**255, P, P - 1, N // 2))),
                    (2, lambda: gen.uint(rng, 256)), (1, lambda: int.from_bytes(gen.fill(rng, 32), 'big')), (1, lambda: N + rng.randrange(1 << 128)))


def signing(ctx, rng, i):
    d, z = gen.secret(rng), value(rng)
    k = ec.rfc6979_k(d, z)
    ctx.eq(ctx.ok('nonce', deterministic_generate_k, N, d, z), k, 'RFC 6979 nonce of %x, %x' % (d, z))
    r, s = ctx.ok('sign', sign, G, d, z)
    ctx.eq((r, s), ec.sign_k(d, z, k), 'signature of %x by %x' % (z, d))
    Q = ec.gmul(d)
    ctx.true(ctx.ok('verify', verify, G, Q, z, (r, s)), 'own signature')
    ctx.event('verified')
    ctx.seen('s', d, z)
    ctx.sample(secret='%x' % d, value='%x' % z, r='%x' % r)


def nonces(ctx, rng, i):
    d, z = gen.secret(rng), value(rng)
    ctx.eq(ctx.ok('nonce', deterministic_generate_k, N, d, z), ec.rfc6979_k(d, z), 'RFC 6979 nonce of %x, %x' % (d, z))
    ctx.seen('n', d, z)


def rfc6979(q, x, z, hf=hashlib.sha256):
    """RFC 6979 for any order and hash, from the text of the RFC; z is the hash as an integer."""
    qlen, hlen = q.bit_length(), hf().digest_size * 8
    rlen = (qlen + 7) // 8
    z1 = z >> (hlen - qlen) if hlen > qlen else z
    z2 = z1 - q if z1 >= q else z1
    seed = x.to_bytes(rlen, 'big') + z2.to_bytes(rlen, 'big')
    V, K = b'\1' * (hlen // 8), b'\0' * (hlen // 8)
    hm = lambda k, m: hmac.new(k, m, hf).digest()
    K = hm(K, V + b'\0' + seed); V = hm(K, V)
    K = hm(K, V + b'\1' + seed); V = hm(K, V)
    while True:
        T = b''
        while len(T) * 8 < qlen:
            V = hm(K, V)
            T += V
        k = int.from_bytes(T, 'big') >> (len(T) * 8 - qlen)
        if 1 <= k < q:
            return k
        K = hm(K, V + b'\0'); V = hm(K, V)


ORDERS = [N, 2**256 - 1, 2**255 + 1, 2**224 - 3, 0xFFFFFFFFFFFFFFFFFFFFFFFF99DEF836146BC9B1B4D22831, 2**521 - 1, 7, 101, 251, 257, 2**254 + 1, 2**253 + 5, 2**159 + 7, 2**158 + 3, 2**510 + 3, 2**511 + 1, 2**512 - 5, 65537, 2**31 - 1, 3,
          0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409]


def orders(ctx, rng, i):
    """The nonce loop rejects candidates: orders just above a power of two reject half of them."""
    q = rng.choice(ORDERS) if rng.random() < .7 else (1 << rng.randrange(2, 256)) + rng.choice((1, 3))
    x, z = rng.randrange(1, q), value(rng)
    hf = rng.choice((hashlib.sha256, hashlib.sha256, hashlib.sha512, hashlib.sha1)) if rng.random() < .5 else None
    hl = (hf or hashlib.sha256)().digest_size * 8
    z &= (1 << hl) - 1
    if q.bit_length() > hl and z >= q:
        return
    args = (q, x, z) if hf is None else (q, x, z, hf)
    ctx.eq(ctx.ok('nonce', deterministic_generate_k, *args), rfc6979(q, x, z, hf or hashlib.sha256), 'RFC 6979 nonce for order %x' % q)
    ctx.event('other order')


def candidates(rng, d, z, r, s, k):
    """(value, key point, (r, s)) around a valid signature."""
    Q = ec.gmul(d)
    e = lambda: rng.choice((1, -1, 2, 1 << rng.randrange(256)))
    yield z, Q, (r, N - s)
    yield z, Q, rng.choice(((r, s + N), (r + N, s), (r - N, s), (r, s - N), (-r, s), (r, -s), (-r, -s), (r, -s % N + N), (r + N, s + N)))
    yield z, Q, rng.choice(((0, s), (r, 0), (0, 0), (N, s), (r, N), (N, N), (1, 1), (N - 1, N - 1), (2**256 - 1, s), (r, 2**256 - 1)))
    yield z, Q, rng.choice(((s, r), (r, r), (s, s), (r, (s + e()) % N), ((r + e()) % N, s)))
    yield rng.choice((z + e(), z ^ 1, z ^ 1 << 255, z + N, 0, z - N)) % 2**256, Q, (r, s)
    yield z, rng.choice((ec.neg(Q), ec.G, ec.gmul(d + 1) or ec.G, ec.add(Q, Q), points(rng))), (r, s)


def verifying(ctx, rng, i):
    d, z, k = gen.secret(rng), value(rng), gen.secret(rng)
    r, s = ec.sign_k(d, z, k)
    if not r or not s:
        return
    c = list(candidates(rng, d, z, r, s, k))
    for z2, Q2, sg in [(z, ec.gmul(d), (r, s))] + rng.sample(c, 3):
        judge(ctx, Q2, z2, sg)


def judge(ctx, Q, z, sg):
    want = ec.verify(Q, z, *sg)
    ctx.true(bool(ctx.ok('verify', verify, G, Q, z, sg)) is want, 'verify(Q=%r, value=%x, r=%x, s=%x) is not %s' % (Q, z, sg[0], sg[1], want))
    ctx.event('valid' if want else 'invalid')
    ctx.seen('v', Q, z, sg)


def crafted(ctx, rng, i):
    """Signatures whose verification meets special intermediate points."""
    d, k, z = gen.secret(rng), gen.secret(rng), value(rng)
    how = i % 6
    r = ec.gmul(k)[0] % N
    if how == 0:            # u1*G + u2*Q is infinity: z + r*d = 0
        z = -r * d % N
        s = gen.secret(rng)
    elif how == 1:          # u1*G equals u2*Q: z = r*d
        z = r * d % N
        s = 2 * z * pow(k, -1, N) % N
    elif how == 2:          # value 0
        z = rng.choice((0, N))
        s = r * d * pow(k, -1, N) % N
    elif how == 3:          # r, s without any relation
        r, s = gen.secret(rng), gen.secret(rng)
    elif how == 4:          # key d with a valid signature for chosen r, s: d = (s*k - z)/r
        s = gen.secret(rng)
        d = (s * k - z) * pow(r, -1, N) % N
        if not d:
            return
    else:                   # the same R as the key's own point
        r = ec.gmul(d)[0] % N
        s = (z + r * d) * pow(d, -1, N) % N
    if not s:
        return
    judge(ctx, ec.gmul(d), z, (r, s))
    ctx.event('crafted %d' % how)


def recovery(ctx, rng, i):
    d, z, k = gen.secret(rng), value(rng), gen.secret(rng)
    if i % 4 == 0:
        r, s = ec.sign_k(d, z, ec.rfc6979_k(d, z))
    elif i % 4 == 1:        # the other candidate key is infinity
        z %= N
        r = ec.gmul(k)[0]
        d = -2 * z * pow(r, -1, N) % N
        if not d:
            return
        s = -z * pow(k, -1, N) % N
        ctx.event('recovery with an infinite candidate')
    else:
        r, s = ec.sign_k(d, z, k)
    if i % 3 == 0:
        s = N - s
    if not s:
        return
    got = ctx.ok('recover', possible_public_pairs_for_signature, G, z, (r, s))
    Q = ec.gmul(d)
    got = {tuple(q) for q in got}
    ctx.true(Q in got, 'recovery from (%x, %x) of %x lacks the signer %x' % (r, s, z, d))
    for q in got:
        ctx.true(ec.on_curve(*q) and ec.verify(q, z, r, s), 'recovery gives %r, under which the signature does not verify' % (q,))
    ctx.eq(got, ec.recover(z, r, s), 'recovered keys')
    ctx.event('recovered')
    ctx.seen('r', z, r, s)


def wrapped(ctx, rng, i):
    """Nonce points whose x is not below the group order (nobody meets one by chance, but anybody can craft one), and an r of no point."""
    odd, z, s = rng.randrange(2), value(rng), gen.secret(rng)
    x = N + (rng.randrange(P - N) if rng.random() < .7 else rng.randrange(1, 64))
    R = ec.lift_x(x, odd)
    r = x - N
    if R is not None and r:
        Q = ec.add(ec.mul(s * pow(r, -1, N) % N, R), ec.gmul(-z * pow(r, -1, N) % N))
        if Q is None:
            return
        ctx.true(ec.verify(Q, z, r, s), 'crafted signature')
        judge(ctx, Q, z, (r, s))
        got = {tuple(q) for q in ctx.ok('recover', possible_public_pairs_for_signature, G, z, (r, s))}
        ctx.true(Q in got, 'recovery from (%x, %x) of %x lacks %r' % (r, s, z, Q))
        ctx.event('x beyond the order')
    elif r:
        got = {tuple(q) for q in ctx.ok('recover', possible_public_pairs_for_signature, G, z, (r, s))}
    else:
        return
    ctx.eq(got, ec.recover(z, r, s), 'recovered keys')
    r = gen.secret(rng)
    got = {tuple(q) for q in ctx.ok('recover', possible_public_pairs_for_signature, G, z, (r, s))}
    ctx.eq(got, ec.recover(z, r, s), 'recovered keys')
    ctx.event('some r', 1)
    ctx.seen('w', z, r, s)


def helpers(ctx, rng, i):
    q = points(rng)
    for even in (True, False):
        want = ec.lift_x(q[0], 0 if even else 1)
        ctx.eq(tuple(ctx.ok('public_pair_for_x', public_pair_for_x, G, q[0], even)), want, 'public_pair_for_x')
    ctx.true(ctx.ok('is_public_pair_valid', is_public_pair_valid, G, q), 'valid pair')
    bad = rng.choice(((q[0], (q[1] + 1) % P), (q[1], q[0]), ((q[0] + 1) % P, q[1]), (q[0] + P, q[1]), (q[0], q[1] + P), (q[0], -q[1]), (-q[0], q[1]), (0, 0), (rng.randrange(P), rng.randrange(P))))
    if not ec.on_curve(*bad):
        ctx.true(not ctx.ok('is_public_pair_valid', is_public_pair_valid, G, bad), 'invalid pair %r accepted' % (bad,))


def other_curves(ctx, rng, i):
    """Which pairs are points, on small curves of any order (points with y = 0 too)."""
    p = rng.choice((5, 7, 11, 13, 17, 19, 23, 29, 31))
    a, b = rng.randrange(p), rng.randrange(p)
    pts = {(x, y) for x in range(p) for y in range(p) if (y * y - x**3 - a * x - b) % p == 0}
    if not pts or (4 * a**3 + 27 * b * b) % p == 0:
        return
    g = Point(CurveFp(p, a, b), *sorted(pts)[0])
    for x in range(-1, p + 1):
        for y in range(-1, p + 1):
            ctx.true(bool(ctx.ok('is_public_pair_valid', is_public_pair_valid, g, (x, y))) is ((x, y) in pts), 'is_public_pair_valid((%d, %d)) on y2=x3+%dx+%d mod %d' % (x, y, a, b, p))
    for x, y in pts:
        if y:
            ctx.eq(tuple(ctx.ok('public_pair_for_x', public_pair_for_x, g, x, y % 2 == 0)), (x, y), 'public_pair_for_x on y2=x3+%dx+%d mod %d' % (a, b, p))
    ctx.seen('o', p, a, b)


# ---- small curves ---------------------------------------------------------------------------------

def _curves():
    """Curves over small fields whose group has prime order, with the group order below or above the field size."""
    out = []
    for p in (11, 13, 17, 19, 23, 29, 31, 37, 43, 61, 67, 79):
        sq = {}
        for y in range(p):
            sq.setdefault(y * y % p, []).append(y)
        for b in range(1, p):
            pts = [(x, y) for x in range(p) for y in sq.get((x**3 + b) % p, ())]
            n = len(pts) + 1
            if n > 4 and all(n % q for q in range(2, n)) and n != p:
                out.append((p, 0, b, n, pts))
        for a, b in ((1, 1), (2, 3), (p - 3, 1), (5, 7), (1, 6)):
            if (4 * a**3 + 27 * b * b) % p:
                pts = [(x, y) for x in range(p) for y in sq.get((x**3 + a * x + b) % p, ())]
                n = len(pts) + 1
                if n > 4 and all(n % q for q in range(2, n)) and n != p:
                    out.append((p, a, b, n, pts))
    return out


CURVES = _curves()


def small(ctx, rng, i):
    from .c03 import madd
    p, a, b, n, pts = CURVES[rng.randrange(len(CURVES))]
    g = rng.choice(pts)
    gen_ = Point(CurveFp(p, a, b), g[0], g[1], n)
    mult = [None]
    for _ in range(n - 1):
        mult.append(madd(mult[-1], g, p, a))
    what = 'on y2=x3+%dx+%d mod %d, generator %r' % (a, b, p, g)
    d = rng.randrange(1, n)
    Q = mult[d]
    ctx.eq(tuple(ctx.ok('public_pair', public_pair_for_secret_exponent, gen_, d)), Q, 'public point')

    for x in range(-1, p + 2):
        for y in range(-1, p + 2) if rng.random() < .2 else (-1, 0, 1, p - 1, p, p + 1):
            want = (x, y) in pts
            ctx.true(bool(ctx.ok('is_public_pair_valid', is_public_pair_valid, gen_, (x, y))) is want, 'is_public_pair_valid((%d, %d)) is not %s %s' % (x, y, want, what))
    for x, y in pts:
        if y:
            ctx.eq(tuple(ctx.ok('public_pair_for_x', public_pair_for_x, gen_, x, y % 2 == 0)), (x, y), 'public_pair_for_x(%d, %s) %s' % (x, y % 2 == 0, what))

    def valid(Qd, z, r, s):
        if not (1 <= r < n and 1 <= s < n):
            return False
        w = pow(s, -1, n)
        R = mult[(z * w + r * w * Qd) % n]
        return R is not None and R[0] % n == r
    rs_ = range(-1, n + 2)
    z = rng.choice((rng.randrange(n), rng.getrandbits(256), 0, n))
    for r in rng.sample(rs_, min(len(rs_), 12)):
        for s in rs_:
            want = valid(d, z, r, s)
            got = ctx.ok('verify-small', verify, gen_, Q, z, (r, s))
            ctx.true(bool(got) is want, 'verify(%r, %d, (%d, %d)) is not %s %s' % (Q, z, r, s, want, what))
            if want or 1 <= r < n and 1 <= s < n and rng.random() < .1:
                # recovery of every valid signature and of some others
                rec = {tuple(q) for q in ctx.ok('recover-small', possible_public_pairs_for_signature, gen_, z, (r, s))}
                if want:
                    ctx.true(Q in rec, 'recovery from (%d, %d) of %d lacks %r %s' % (r, s, z, Q, what))
                ctx.eq(rec, {mult[e] for e in range(1, n) if valid(e, z, r, s)}, 'recovered keys ' + what)
    for _ in range(6):
        z = rng.getrandbits(256)
        k = rfc6979(n, d, z)
        r = mult[k][0] % n
        s = pow(k, -1, n) * (z + r * d) % n
        o = ctx.call('sign-small', sign, gen_, d, z)
        if r and s:
            ctx.true(o.ok and tuple(o.value) == (r, s), 'sign(%d, %x): %r, expected %r %s' % (d, z, o, (r, s), what))
        else:
            ctx.true(not o.ok or valid(d, z, *o.value), 'sign with r or s zero: %r %s' % (o, what))
    ctx.seen('c', p, a, b, g, d, z)


SECTIONS = [('signing', signing, 640, 16000), ('nonces', nonces, 8000, 160000), ('orders', orders, 8000, 160000), ('verifying', verifying, 400, 10000), ('crafted', crafted, 480, 12000), ('recovery', recovery, 240, 6000), ('wrapped', wrapped, 120, 3000),
            ('helpers', helpers, 1600, 30000), ('small', small, 320, 8000), ('other-curves', other_curves, 160, 3000)]
REQUIRE = {'sign': 500, 'nonce': 8000, 'valid': 500, 'invalid': 500, 'recovered': 150, 'x beyond the order': 30, 'recovery with an infinite candidate': 30, 'crafted 0': 40, 'crafted 1': 40, 'verify-small': 5000, 'recover-small': 200, 'sign-small*': 500}
