from ..lib import *
from bitforge.encoding import encode_base58h, decode_base58h, InvalidBase58h

ID = 'C01'
RULE = ('byte strings (0-6000 bytes, 0-80 leading zeros, boundary contents) through encode/decode, and texts made by '
        'mutating valid ones, forging checksums and random text; non-trivial: distinct payload or distinct candidate text')
ASSUMPTIONS = ['hashlib is a correct SHA-256']


def payload(rng):
    b = gen.pick(rng, (3, lambda: gen.fill(rng, rng.choice((0, 1, 2, 3, 4, 5, 20, 21, 32, 33, 34, 37, 38, 78, 82)))),
                 (2, lambda: gen.blob(rng, 100)), (1, lambda: gen.blob(rng, 600)))
    if rng.random() < .4:
        b = bytes(rng.choice((1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 57, 58, 80))) + b
    return b


def roundtrip(ctx, rng, i):
    b = payload(rng)
    want = codec.b58check(b)
    got = ctx.ok('encode', encode_base58h, b)
    ctx.eq(got, want, 'Base58Check text of %s' % b.hex())
    back = ctx.ok('decode', decode_base58h, got)
    ctx.eq(back, b, 'decoded bytes of %s' % got)
    ctx.seen('b', b)
    ctx.sample(bytes=b, text=got)


def judge(ctx, s):
    want = codec.b58check_dec(s)
    if want is None:
        ctx.raises(InvalidBase58h, 'decode-bad', decode_base58h, s)
    else:
        ctx.eq(ctx.ok('decode-good', decode_base58h, s), want, 'decoded bytes of %r' % s)
    ctx.seen('t', s)


def mutated(ctx, rng, i):
    b = payload(rng)[:90]
    s = codec.b58check(b)
    for _ in range(6):
        judge(ctx, gen.mutate_text(rng, s))
    judge(ctx, gen.text(rng))
    # candidates that decode to fewer bytes than a checksum
    judge(ctx, '1' * rng.randrange(8) + ''.join(rng.choice(codec.ALPHABET) for _ in range(rng.randrange(7))))
    for t in (s + '1', '1' + s, s + ' ', ' ' + s, s + '\n', s[:-1], s[1:], s.lower(), s.upper(), s[::-1], s + '\0', '\ufeff' + s):
        judge(ctx, t)


def checksum(ctx, rng, i):
    """Right payload, forged checksum: any of the 4 bytes wrong, other hashes, other lengths."""
    b = payload(rng)[:60]
    good = codec.dsha(b)[:4]
    for pos in range(4):
        c = bytearray(good)
        c[pos] ^= rng.choice((1, 0x80, 0xff, rng.randrange(1, 256)))
        judge(ctx, codec.b58enc(b + bytes(c)))
    c = bytearray(rng.randbytes(4))
    keep = rng.randrange(4)
    c[keep] = good[keep]
    judge(ctx, codec.b58enc(b + bytes(c)))
    for c in (codec.sha256(b)[:4], codec.dsha(b)[-4:], codec.dsha(b)[:3], codec.dsha(b)[:5], good[::-1], bytes(4),
              codec.hash160(b)[:4], codec.dsha(b[::-1])[:4], codec.dsha(b + b'\0')[:4], codec.dsha(b.lstrip(b'\0'))[:4], b''):
        judge(ctx, codec.b58enc(b + c))


def onechar(ctx, rng, i):
    """Every single-character substitution at one position, and every deletion and transposition."""
    s = codec.b58check(payload(rng)[:40])
    if not s:
        return
    pos = rng.randrange(len(s))
    for c in codec.ALPHABET + '0OIl \n+/é':
        judge(ctx, s[:pos] + c + s[pos + 1:])
    for pos in range(len(s)):
        judge(ctx, s[:pos] + s[pos + 1:])
        judge(ctx, s[:pos] + s[pos + 1:pos + 2] + s[pos:pos + 1] + s[pos + 2:])


def large(ctx, rng, i):
    """A few long payloads: the text has no maximum length."""
    n = rng.choice((1000, 1023, 1024, 1025, 1500, 2048, 3000, 4095, 4096, 4097, 5000))
    b = bytes(rng.choice((0, 0, 1, 100, 256, 257, 1000))) + gen.fill(rng, n)
    want = codec.b58check(b)
    ctx.eq(ctx.ok('encode-large', encode_base58h, b), want, 'Base58Check text of %d bytes' % n)
    ctx.eq(ctx.ok('decode-large', decode_base58h, want), b, 'decoded %d bytes' % n)
    at = rng.choice((len(want) - 1, len(want) - 2, rng.randrange(len(want))))
    judge(ctx, want[:at] + rng.choice([c for c in codec.ALPHABET if c != want[at]]) + want[at + 1:])
    ctx.seen('b', b)


SECTIONS = [('large', large, 80, 1600), ('roundtrip', roundtrip, 24000, 400000), ('mutated', mutated, 4000, 80000), ('checksum', checksum, 4000, 80000),
            ('onechar', onechar, 800, 16000)]
REQUIRE = {'encode-large': 60, 'decode-large': 60, 'encode': 5000, 'decode': 5000, 'decode-bad*': 10000, 'decode-good': 50}
