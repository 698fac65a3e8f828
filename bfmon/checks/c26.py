from ..lib import *
from bitforge.signature import validate_signature

ID = 'C26'
RULE = ('strict-DER signatures with boundary R and S, their mutations, structures with every field set independently, every length from 0, and random bytes; judged by an '
        'independent DER decoder; non-trivial: distinct byte string that starts like a signature')


def judge(ctx, b, how):
    want = ec.bip66(b)
    f = bytes if len(b) % 3 else bytearray
    got = ctx.ok('validate', validate_signature, f(b))
    ctx.true(got is True or got is False, 'validate_signature(%s) is %r' % (b.hex(), got))
    ctx.true(got is want, 'validate_signature(%s) is %s, BIP66 says %s' % (b.hex(), got, want))
    ctx.event(('valid-' if want else 'invalid-') + how)
    if b[:1] == b'\x30':
        ctx.seen(b)


def part(rng):
    """Contents of an integer: mostly valid."""
    k = rng.randrange(9)
    n = rng.choice((1, 1, 2, 3, 8, 20, 31, 32, 32, 32, 33, 33, 34, rng.randrange(1, 68)))
    if k < 4:
        b = bytearray(rng.randbytes(n))
        b[0] &= 0x7f
        b[0] |= b[0] == 0
        return bytes(b)
    if k == 4 and n > 1:
        return b'\0' + bytes([rng.choice((0x80, 0xff, 0x81))]) + rng.randbytes(n - 2)
    if k == 5:
        return bytes([rng.choice((0x80, 0xff, 0x7f, 0x00, 0x01))]) + rng.randbytes(n - 1)
    if k == 6 and n > 1:
        return b'\0' + bytes([rng.choice((0x7f, 0, 1))]) + rng.randbytes(n - 2)
    if k == 7:
        return rng.choice((b'', b'\0', b'\x80', b'\x7f', b'\1', b'\0\0', b'\0\x80', b'\0\x7f', b'\xff'))
    return gen.fill(rng, n)


def structure(ctx, rng, i):
    r, s = part(rng), part(rng)
    t = rng.choice((b'\1', b'\1', b'\x81', b'\0', b'', b'\1\1', b'\xff', b'\2', b'\3'))
    tags = [0x30, 2, 2]
    lens = [4 + len(r) + len(s), len(r), len(s)]
    if rng.random() < .4:
        j = rng.randrange(3)
        tags[j] = rng.choice((0, 1, 2, 3, 0x30, 0x31, 0x2f, 0x82, 0xff, rng.randrange(256)))
    if rng.random() < .4:
        j = rng.randrange(3)
        lens[j] = rng.choice((lens[j] - 1, lens[j] + 1, lens[j] + 2, 0, 0x80, 0x81, 0xff, 0x7f, lens[j] + 0x80, lens[0], rng.randrange(256), 70, 64)) % 256
    if rng.random() < .1:
        lens[1], lens[2] = lens[1] + 1, lens[2] - 1
        lens = [x % 256 for x in lens]
    b = bytes([tags[0], lens[0] % 256, tags[1], lens[1]]) + r + bytes([tags[2], lens[2]]) + s + t
    judge(ctx, b, 'structure')


def real(ctx, rng, i):
    r = gen.pick(rng, (3, lambda: gen.secret(rng)), (1, lambda: gen.uint(rng, 256)), (1, lambda: gen.uint(rng, 264)))
    s = gen.pick(rng, (3, lambda: gen.secret(rng)), (1, lambda: gen.uint(rng, 256)), (1, lambda: N // 2 - rng.randrange(3)))
    b = ec.der(r, s) + bytes([rng.choice((1, 1, 2, 3, 0x81, 0x82, 0x83, 0, 0xff, rng.randrange(256)))])
    judge(ctx, b, 'real')
    ctx.sample(signature=b, verdict=ec.bip66(b))
    for _ in range(5):
        judge(ctx, gen.mutate(rng, b), 'mutated')
    for n in rng.sample(range(len(b)), 2):
        judge(ctx, b[:n], 'truncated')
    judge(ctx, b + rng.randbytes(rng.randrange(1, 4)), 'extended')
    judge(ctx, b[:-1], 'untyped')


def lengths(ctx, rng, i):
    """Every split of every length up to beyond the maximum."""
    n = i % 84                  # total length
    for lr in range(max(1, n)):
        ls = n - 7 - lr
        b = bytearray(rng.choice((1, 0x7f)) for _ in range(n))
        for p, v in ((0, 0x30), (1, (n - 3) % 256), (2, 2), (3, lr), (4 + lr, 2), (5 + lr, ls % 256)):
            if 0 <= p < n:
                b[p] = v
        judge(ctx, bytes(b), 'length')
        # the first byte of R and of S
        for p in (4, 6 + lr):
            if p < n:
                c = bytearray(b)
                c[p] = rng.choice((0, 0x80, 0xff, 0x7f))
                judge(ctx, bytes(c), 'length')
                c[p] = 0
                if p + 1 < n:
                    c[p + 1] = rng.choice((0x80, 0xff, 0x7f, 0))
                    judge(ctx, bytes(c), 'length')


def small(ctx, rng, i):
    """Nine and ten byte strings over the interesting byte values: the shortest signatures."""
    al = (0, 1, 2, 3, 0x30, 0x7f, 0x80, 0x81, 0xff, 6, 7)
    for _ in range(20):
        n = rng.choice((7, 8, 9, 9, 9, 10, 10, 11))
        b = bytearray(rng.choice(al) for _ in range(n))
        if rng.random() < .9:
            b[0], b[1], b[2] = 0x30, n - 3, 2
            b[3] = rng.choice((1, 2, 0, 3))
            if 5 + b[3] < n:
                b[4 + b[3]] = 2
                b[5 + b[3]] = (n - 7 - b[3]) % 256 if rng.random() < .8 else rng.choice(al)
        judge(ctx, bytes(b), 'small')


def noise(ctx, rng, i):
    b = gen.fill(rng, rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 70, 71, 72, 73, 74, 75, 100, 255, 256, rng.randrange(80))))
    judge(ctx, b, 'noise')
    if b:
        judge(ctx, b'\x30' + b, 'noise')
    if len(b) > 3:
        judge(ctx, bytes([0x30, (len(b) - 3) % 256, 2, rng.randrange(80)]) + b[4:], 'noise')


SECTIONS = [('structure', structure, 40000, 800000), ('real', real, 8000, 160000), ('lengths', lengths, 840, 8400), ('small', small, 8000, 160000), ('noise', noise, 12000, 200000)]
REQUIRE = {'valid-structure': 3000, 'invalid-structure': 3000, 'valid-real': 3000, 'invalid-mutated': 3000, 'valid-length': 3000, 'invalid-length': 3000, 'valid-small': 500, 'invalid-noise': 3000}
