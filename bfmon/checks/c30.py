from ..lib import *
from bitforge.utils import encoding as E, generator_secp256k1

ID = 'C30'
RULE = ('the functions of bitforge.utils.encoding on hostile payloads, secrets, points and hashes against independent models and against the classes that do the same, and their refusals on mutated, '
        'forged and foreign texts; non-trivial: distinct input')
FIRST = [0, 0x6f, 5, 0xc4, 0x80, 0xef]


def base58(ctx, rng, i):
    b = gen.blob(rng, 120)
    if rng.random() < .4:
        b = bytes(rng.choice((1, 2, 3, 5, 20, 58))) + b
    t = ctx.ok('b2a_base58', E.b2a_base58, b)
    ctx.eq(t, codec.b58enc(b), 'b2a_base58 of %s' % b.hex())
    ctx.eq(ctx.ok('a2b_base58', E.a2b_base58, t), b, 'a2b_base58 of %s' % t)
    h = ctx.ok('b2a_hashed_base58', E.b2a_hashed_base58, b)
    ctx.eq(h, codec.b58check(b), 'b2a_hashed_base58 of %s' % b.hex())
    ctx.eq(ctx.ok('a2b_hashed_base58', E.a2b_hashed_base58, h), b, 'a2b_hashed_base58 of %s' % h)
    ctx.eq(ctx.ok('double_sha256', E.double_sha256, b), codec.dsha(b), 'double_sha256')
    ctx.eq(ctx.ok('hash160', E.hash160, b), codec.hash160(b), 'hash160')
    ctx.seen('b', b)
    for s in [h] + [gen.mutate_text(rng, h) for _ in range(4)] + [t, codec.b58enc(b + codec.sha256(b)[:4]), gen.text(rng)[:80]]:
        want = codec.b58check_dec(s)
        ctx.eq(ctx.ok('is_hashed_base58_valid', E.is_hashed_base58_valid, s), want is not None, 'is_hashed_base58_valid(%r)' % s)
        if want is None:
            ctx.raises(E.EncodingError, 'a2b_hashed_base58-bad', E.a2b_hashed_base58, s)
        raw = codec.b58dec(s)
        if raw is None:
            ctx.raises(E.EncodingError, 'a2b_base58-bad', E.a2b_base58, s)
        else:
            ctx.eq(ctx.ok('a2b_base58', E.a2b_base58, s), raw, 'a2b_base58(%r)' % s)


def integers(ctx, rng, i):
    v = gen.uint(rng, 256)
    b = v.to_bytes(32, 'big')
    ctx.eq(ctx.ok('to_bytes_32', E.to_bytes_32, v), b, 'to_bytes_32(%d)' % v)
    ctx.eq(ctx.ok('from_bytes_32', E.from_bytes_32, b), v, 'from_bytes_32(%s)' % b.hex())
    ctx.raises(None, 'to_bytes_32-bad', E.to_bytes_32, v + 2**256)
    # any base
    base = rng.choice((2, 3, 10, 16, 36, 58, 255, 256, rng.randrange(2, 257)))
    digits = [rng.randrange(base) if rng.random() < .8 else 0 for _ in range(rng.randrange(40))]
    if rng.random() < .4:
        digits = [0] * rng.randrange(1, 9) + digits
    want = 0
    for x in digits:
        want = want * base + x
    zeros = next((j for j, x in enumerate(digits) if x), len(digits))
    ctx.eq(tuple(ctx.ok('to_long', E.to_long, base, lambda x: x, digits)), (want, zeros), 'to_long(%d, .., %r)' % (base, digits))
    ctx.eq(ctx.ok('from_long', E.from_long, want, zeros, base, lambda x: x), bytes(digits), 'from_long(%d, %d, %d)' % (want, zeros, base))
    ctx.seen('i', v, base, tuple(digits))
    # digits that are not bytes
    base = rng.choice((257, 1000, 65535, 65536, 65537, 10**9, 2**32 - 1, 2**32, 2**63 + 1, 2**64, rng.randrange(257, 1 << rng.randrange(10, 130))))
    digits = [0] * rng.randrange(4) + [rng.choice((0, 1, base - 1, rng.randrange(base))) for _ in range(rng.randrange(12))]
    want = 0
    for x in digits:
        want = want * base + x
    zeros = next((j for j, x in enumerate(digits) if x), len(digits))
    ctx.eq(tuple(ctx.ok('to_long', E.to_long, base, lambda x: x, digits)), (want, zeros), 'to_long(%d, .., %r)' % (base, digits))


def judge_wif(ctx, s, allowed, kw):
    p = codec.b58check_dec(s)
    good = p is not None and (len(p) == 33 or len(p) == 34 and p[33] == 1)
    got = (p[:1], int.from_bytes(p[1:33], 'big'), len(p) == 34) if good else None
    if good and not 1 <= got[1] < N:
        return
    if good:
        ctx.eq(tuple(ctx.ok('wif-parts', E.wif_to_tuple_of_prefix_secret_exponent_compressed, s)), got, 'parts of ' + s)
    else:
        ctx.raises(E.EncodingError, 'wif-parts-bad', E.wif_to_tuple_of_prefix_secret_exponent_compressed, s)
    fit = bool(good and p[:1] in allowed)
    ctx.eq(ctx.ok('is_valid_wif', E.is_valid_wif, s, **kw), fit, 'is_valid_wif(%s, %r)' % (s, kw))
    if fit:
        ctx.eq(tuple(ctx.ok('wif-pair', E.wif_to_tuple_of_secret_exponent_compressed, s, **kw)), got[1:], 'secret and compression of ' + s)
        ctx.eq(ctx.ok('wif_to_secret_exponent', E.wif_to_secret_exponent, s, **kw), got[1], 'secret of ' + s)
    else:
        ctx.raises(E.EncodingError, 'wif-pair-bad', E.wif_to_tuple_of_secret_exponent_compressed, s, **kw)
        ctx.raises(E.EncodingError, 'wif-secret-bad', E.wif_to_secret_exponent, s, **kw)
    ctx.seen('w', s, repr(allowed))


def wif(ctx, rng, i):
    d, net, comp = gen.secret(rng), rng.choice(NETS), rng.random() < .5
    pre = bytes([VERSIONS[net, 'wif']])
    s = ctx.ok('secret_exponent_to_wif', E.secret_exponent_to_wif, d, compressed=comp, wif_prefix=pre)
    payload = pre + d.to_bytes(32, 'big') + (b'\1' if comp else b'')
    ctx.eq(s, codec.b58check(payload), 'WIF of %x' % d)
    ctx.eq(ctx.ok('class to_wif', PrivateKey(d, NET[net], comp).to_wif), s, 'WIF by the class')
    if comp and net == 'livenet':
        ctx.eq(ctx.ok('secret_exponent_to_wif', E.secret_exponent_to_wif, d), s, 'WIF with defaults')
    allowed = rng.choice(([b'\x80'], [b'\xef'], [b'\x80', b'\xef'], [b'\xef', b'\x80'], [bytes([rng.randrange(256)])], [], (b'\xef', b'\x80'), {b'\x80', b'\xef'}, frozenset([b'\xef'])))
    for a, kw in ((allowed, dict(allowable_wif_prefixes=allowed)), ([b'\x80'], {})):
        judge_wif(ctx, s, a, kw)
        judge_wif(ctx, gen.mutate_text(rng, s), a, kw)
        judge_wif(ctx, codec.b58check(gen.mutate(rng, payload)), a, kw)
        judge_wif(ctx, codec.b58check(bytes([rng.choice(FIRST + [rng.randrange(256)])]) + payload[1:]), a, kw)
        judge_wif(ctx, codec.b58check(payload[:33] + rng.choice((b'\0', b'\1', b'\2', b'\1\1', b'\1\0', b'', bytes([rng.randrange(256)])))), a, kw)
        judge_wif(ctx, codec.b58check(payload[:rng.randrange(34)]), a, kw)
        judge_wif(ctx, gen.text(rng)[:80], a, kw)


def sec(ctx, rng, i):
    q = points(rng)
    b = gen.fill(rng, rng.choice((0, 0, 1, 32, 33, 64, 65, rng.randrange(80))))
    if b:
        b = bytes([rng.choice((0, 1, 2, 3, 4, 5, 6, 7, i % 256))]) + b[1:]
    ctx.eq(bool(ctx.ok('is_sec_compressed', E.is_sec_compressed, b)), b[:1] in (b'\2', b'\3'), 'is_sec_compressed(%s)' % b.hex())
    for comp in (True, False):
        b = ec.sec(q, comp)
        ctx.eq(ctx.ok('public_pair_to_sec', E.public_pair_to_sec, q, compressed=comp), b, 'SEC of %r' % (q,))
        ctx.eq(tuple(ctx.ok('sec_to_public_pair', E.sec_to_public_pair, b)), q, 'pair of %s' % b.hex())
        ctx.eq(bool(ctx.ok('is_sec_compressed', E.is_sec_compressed, b)), comp, 'is_sec_compressed(%s)' % b.hex())
        h = codec.hash160(b)
        ctx.eq(ctx.ok('public_pair_to_hash160_sec', E.public_pair_to_hash160_sec, q, compressed=comp), h, 'hash160 of the SEC of %r' % (q,))
        net = rng.choice(NETS)
        pre = bytes([VERSIONS[net, 'pub']])
        a = ctx.ok('public_pair_to_bitcoin_address', E.public_pair_to_bitcoin_address, q, compressed=comp, address_prefix=pre)
        ctx.eq(a, codec.b58check(pre + h), 'address of %r' % (q,))
        ctx.eq(ctx.ok('class to_address', PublicKey(q, NET[net], comp).to_address().to_string), a, 'address by the class')
    ctx.eq(ctx.ok('public_pair_to_sec', E.public_pair_to_sec, q), ec.sec(q), 'SEC of %r' % (q,))
    ctx.eq(ctx.ok('public_pair_to_hash160_sec', E.public_pair_to_hash160_sec, q), codec.hash160(ec.sec(q)), 'hash160')
    ctx.eq(ctx.ok('public_pair_to_bitcoin_address', E.public_pair_to_bitcoin_address, q), codec.b58check(b'\0' + codec.hash160(ec.sec(q))), 'address')
    c, u = ec.sec(q), ec.sec(q, False)
    x, y = c[1:], u[33:]
    for b in (bytes([i % 256]) + x, bytes([i % 256]) + x + y, gen.mutate(rng, c), gen.mutate(rng, u), b'\2' + gen.fill(rng, 32), b'\3' + P.to_bytes(32, 'big'), c + b'\0', u[:-1], c[:-1], b'\4' + x,
              b'\2' + x + y, b'\4' + y + x, b'', b'\2'):
        w = ec.parse_sec(b)
        if w is None:
            ctx.raises(None, 'sec_to_public_pair-bad', E.sec_to_public_pair, b)
        else:
            ctx.eq(tuple(ctx.ok('sec_to_public_pair', E.sec_to_public_pair, b)), w[0], 'pair of %s' % b.hex())
    ctx.seen('q', q)


def judge_address(ctx, s, rng):
    p = codec.b58check_dec(s)
    good = p is not None and len(p) == 21 and p[0] in (0, 0x6f)
    if good:
        ctx.eq(tuple(ctx.ok('address-parts', E.bitcoin_address_to_hash160_sec_with_prefix, s)), (p[1:], p[:1]), 'parts of ' + s)
    else:
        ctx.raises(E.EncodingError, 'address-parts-bad', E.bitcoin_address_to_hash160_sec_with_prefix, s)
    for pre, kw in ((b'\0', {}), (b'\0', dict(address_prefix=b'\0')), (b'\x6f', dict(address_prefix=b'\x6f'))):
        if good and p[:1] == pre:
            ctx.eq(ctx.ok('address-hash', E.bitcoin_address_to_hash160_sec, s, **kw), p[1:], 'hash of ' + s)
        else:
            ctx.raises(E.EncodingError, 'address-hash-bad', E.bitcoin_address_to_hash160_sec, s, **kw)
    for pre, kw in ((b'\0', {}), (b'\x6f', dict(allowable_prefixes=b'\x6f')), (b'\0\x6f', dict(allowable_prefixes=b'\0\x6f')), (b'\0\x6f', dict(allowable_prefixes=[b'\x6f', b'\0'])), (b'', dict(allowable_prefixes=[])), (b'\0\x6f', dict(allowable_prefixes=(b'\0', b'\x6f'))), (b'\x6f', dict(allowable_prefixes={b'\x6f'}))):
        ctx.eq(bool(ctx.ok('is_valid_bitcoin_address', E.is_valid_bitcoin_address, s, **kw)), bool(good and p[0] in pre), 'is_valid_bitcoin_address(%r, %r)' % (s, kw))
    ctx.seen('a', s)


def address(ctx, rng, i):
    h = gen.fill(rng, 20)
    pre = bytes([rng.choice(FIRST + [0, 0x6f, 0, 0x6f, i % 256])])
    s = ctx.ok('hash160_sec_to_bitcoin_address', E.hash160_sec_to_bitcoin_address, h, address_prefix=pre)
    ctx.eq(s, codec.b58check(pre + h), 'address of %s' % h.hex())
    if pre == b'\0':
        ctx.eq(ctx.ok('hash160_sec_to_bitcoin_address', E.hash160_sec_to_bitcoin_address, h), s, 'address with defaults')
    judge_address(ctx, s, rng)
    judge_address(ctx, gen.mutate_text(rng, s), rng)
    judge_address(ctx, codec.b58check(gen.mutate(rng, pre + h)), rng)
    judge_address(ctx, codec.b58check(rng.choice((b'\0', b'\x6f')) + gen.fill(rng, rng.choice((0, 1, 19, 21, 22, 32, 33)))), rng)
    judge_address(ctx, gen.text(rng)[:60], rng)
    ctx.sample(address=s)


SECTIONS = [('base58', base58, 8000, 150000), ('integers', integers, 8000, 150000), ('wif', wif, 2400, 50000), ('sec', sec, 1600, 30000), ('address', address, 3200, 60000)]
REQUIRE = {'b2a_base58': 5000, 'a2b_hashed_base58': 5000, 'a2b_hashed_base58-bad*': 5000, 'a2b_base58-bad*': 1000, 'to_long': 5000, 'from_long': 5000, 'is_valid_wif': 20000, 'wif-pair': 3000,
           'wif-parts-bad*': 5000, 'sec_to_public_pair': 3000, 'sec_to_public_pair-bad*': 5000, 'address-parts': 2000, 'address-parts-bad*': 5000, 'is_valid_bitcoin_address': 50000}
