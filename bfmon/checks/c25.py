import math
from ..lib import *
from bitforge.utils.numbertheory import inverse_mod, modular_sqrt, legendre_symbol

ID = 'C25'
RULE = ('all residues of all small odd primes, and boundary and random residues of large primes of every class mod 8 and high 2-adicity; inverses for all pairs below a bound and '
        'for large, negative and unreduced numbers and composite moduli; non-trivial: distinct (number, modulus)')
LIMIT = {'quick': 700, 'thorough': 4000}


def _sieve(n):
    f = bytearray([1]) * (n + 1)
    for q in range(2, int(n**.5) + 1):
        if f[q]:
            f[q * q::q] = bytes(len(f[q * q::q]))
    return [q for q in range(2, n + 1) if f[q]]


SMALL = [q for q in _sieve(4000) if q > 2]
BIG = [P, N, 2**255 - 19, 2**224 - 2**96 + 1, 2**192 - 2**64 - 1, 2**256 - 2**224 + 2**192 + 2**96 - 1, 2**521 - 1, 2**127 - 1, 2**61 - 1, 2**31 - 1, 65537, 257, 998244353, 2013265921,
       2**64 - 2**32 + 1, 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001, 3 * 2**30 + 1, 5 * 2**55 + 1, 12289, 40961, 786433, 7340033]


def is_prime(n):
    if n < 2 or any(n % q == 0 and n != q for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)):
        return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def jacobi(a, n):
    """By reciprocity: independent of Euler's criterion."""
    a %= n
    t = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                t = -t
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            t = -t
        a %= n
    return t if n == 1 else 0


def root(ctx, a, p, symbol):
    r = ctx.ok('modular_sqrt', modular_sqrt, a, p)
    if symbol == 1:
        ctx.true(r * r % p == a % p and 0 < r < p, 'modular_sqrt(%d, %d) is %r' % (a, p, r))
        ctx.event('root')
    else:
        ctx.eq(r, 0, 'modular_sqrt(%d, %d)' % (a, p))
        ctx.event('no root' if symbol else 'zero')
    ctx.eq(ctx.ok('legendre_symbol', legendre_symbol, a, p), symbol, 'legendre_symbol(%d, %d)' % (a, p))


def exhaustive(ctx, rng, i):
    if i >= len(SMALL):
        return
    p = SMALL[i]
    squares = {x * x % p for x in range(1, p)}
    for a in range(p):
        root(ctx, a, p, 0 if a == 0 else 1 if a in squares else -1)
    ctx.seen('p', p)
    ctx.event('primes covered exhaustively')


def prime(rng):
    k = rng.randrange(5)
    if k == 0:
        return rng.choice(BIG)
    if k == 4:          # all small primes are residues, so the least non-residue is large
        f = 8
        for q in SMALL[:rng.randrange(4, 40)]:
            f *= q
        while True:
            q = f * rng.randrange(1, 4096) + 1
            if is_prime(q):
                return q
    if k == 1:
        e = rng.randrange(1, 100)
        while True:
            q = (rng.getrandbits(rng.randrange(1, 100)) | 1) << e | 1
            if q > 3 and is_prime(q):
                return q
            e = rng.randrange(1, 100)
    bits = rng.choice((8, 12, 16, 32, 33, 64, 128, 256, 300))
    while True:
        q = rng.getrandbits(bits) | 1
        if q > 2 and is_prime(q):
            return q


def large(ctx, rng, i):
    p = prime(rng)
    for _ in range(6):
        k = rng.randrange(6)
        if k == 0:
            a = rng.choice((0, 1, 2, 3, 4, p - 1, p - 2, p - 4, (p + 1) // 2)) % p
        elif k == 1:
            a = gen.uint(rng, p.bit_length()) % p
        elif k == 2:
            a = rng.randrange(p)**2 % p
        elif k == 3:                        # a root of unity of 2-power order
            e = (p - 1) & -(p - 1)
            a = pow(rng.randrange(1, p), (p - 1) // e * rng.choice((1, 2)), p)
        elif k == 4:
            a = pow(rng.choice((2, 3, 5, 7)), rng.randrange(1, 40), p)
        else:
            a = rng.randrange(p)
        if rng.random() < .25:       # not reduced
            a += p * rng.choice((1, 2, p - 1, p, p + 1, p * p, rng.getrandbits(64), rng.getrandbits(600)))
            ctx.event('unreduced number')
        root(ctx, a, p, jacobi(a, p))
    ctx.event('2-adicity %d' % min(10, ((p - 1) & -(p - 1)).bit_length() - 1))
    ctx.seen('l', p, a)
    ctx.sample(prime=p, number=a)


def inv(ctx, a, m):
    x = ctx.ok('inverse_mod', inverse_mod, a, m)
    ctx.true(0 < x < m and a * x % m == 1, 'inverse_mod(%d, %d) is %r' % (a, m, x))


def inverses(ctx, rng, i):
    """All numbers for one small modulus."""
    m = i + 2
    for a in range(-m, 2 * m + 1) if m < 200 else range(m):
        if math.gcd(a, m) == 1:
            inv(ctx, a, m)
    ctx.event('moduli covered exhaustively')


def large_inverses(ctx, rng, i):
    for _ in range(8):
        m = rng.choice((P, N, prime(rng), gen.uint(rng, 256), gen.uint(rng, 600), rng.getrandbits(64), 2**rng.randrange(1, 300), 10**18, 2**256))
        if m < 2:
            continue
        k = rng.randrange(7)
        a = (gen.uint(rng, 256) if k == 0 else rng.randrange(m) if k == 1 else -rng.randrange(1, m) if k == 2 else m + rng.randrange(m) if k == 3 else
             rng.choice((1, m - 1, -1, m + 1, 2 * m - 1, 2, (m + 1) // 2, m // 2)) if k == 4 else gen.uint(rng, 700) if k == 5 else -gen.uint(rng, 600))
        if math.gcd(a, m) == 1:
            inv(ctx, a, m)
            ctx.seen('i', a, m)
            ctx.event('large inverse')


SECTIONS = [('exhaustive', exhaustive, 250, 549), ('large', large, 3200, 60000), ('inverses', inverses, 500, 3000), ('large-inverses', large_inverses, 5000, 100000)]
REQUIRE = {'unreduced number': 1000, 'root': 50000, 'no root': 50000, 'zero': 200, 'primes covered exhaustively': 240, 'moduli covered exhaustively': 500, 'large inverse': 10000, '2-adicity 10': 200, 'inverse_mod': 60000}
