import json
from ..lib import *

ID = 'C02'
RULE = ('secrets (range ends, leading/trailing zero bytes, sparse, random) x network x compression through WIF, hex and '
        'bytes; imports of mutated, forged and random texts; non-trivial: distinct key or distinct candidate encoding')


def wif(d, net, comp):
    return codec.b58check(bytes([VERSIONS[net, 'wif']]) + d.to_bytes(32, 'big') + (b'\1' if comp else b''))


def fields(ctx, k, d, net, comp, what):
    ctx.eq(k.secret, d, what + ' secret')
    ctx.eq(k.network.name, net, what + ' network')
    ctx.true(bool(k.compressed) == comp, what + ' compression: %r' % (k.compressed,))
    ctx.true(isinstance(k, PrivateKey), what + ' is a PrivateKey')


def roundtrip(ctx, rng, i):
    d, net, comp = gen.secret(rng), rng.choice(NETS), rng.random() < .5
    k = ctx.ok('create', PrivateKey, d, net if rng.random() < .3 else NET[net], comp)
    fields(ctx, k, d, net, comp, 'created')
    ctx.eq(ctx.ok('to_wif', k.to_wif), wif(d, net, comp), 'WIF of %x' % d)
    ctx.eq(ctx.ok('to_bytes', k.to_bytes), d.to_bytes(32, 'big'), 'bytes of %x' % d)
    ctx.eq(ctx.ok('to_hex', k.to_hex), '%064x' % d, 'hex of %x' % d)
    w = ctx.ok('from_wif', PrivateKey.from_wif, wif(d, net, comp))
    fields(ctx, w, d, net, comp, 'from_wif')
    ctx.eq(w, k, 'from_wif')
    b = ctx.ok('from_bytes', PrivateKey.from_bytes, d.to_bytes(32, 'big'), NET[net], comp)
    fields(ctx, b, d, net, comp, 'from_bytes')
    h = ctx.ok('from_hex', PrivateKey.from_hex, '%064x' % d, NET[net], comp)
    fields(ctx, h, d, net, comp, 'from_hex')
    if rng.random() < .3:
        fields(ctx, ctx.ok('defaults', PrivateKey.from_bytes, d.to_bytes(32, 'big')), d, 'livenet', True, 'from_bytes(b)')
        fields(ctx, ctx.ok('defaults', PrivateKey.from_hex, '%064x' % d), d, 'livenet', True, 'from_hex(h)')
        fields(ctx, ctx.ok('defaults', PrivateKey, d), d, 'livenet', True, 'PrivateKey(d)')
    ctx.seen(d, net, comp)
    ctx.sample(secret='%x' % d, network=net, compressed=comp, wif=w.to_wif())


def judge_wif(ctx, s):
    p = codec.b58check_dec(s)
    good = None
    if p is not None and p[:1] in (b'\x80', b'\xef') and (len(p) == 33 or len(p) == 34 and p[33] == 1):
        d = int.from_bytes(p[1:33], 'big')
        if 1 <= d < N:
            good = d, 'livenet' if p[0] == 0x80 else 'testnet', len(p) == 34
    if good:
        fields(ctx, ctx.ok('from_wif-good', PrivateKey.from_wif, s), *good, 'from_wif(%s)' % s)
    else:
        ctx.raises(PrivateKey.Error, 'from_wif-bad', PrivateKey.from_wif, s)
    ctx.seen('w', s)


def bad_wif(ctx, rng, i):
    d, net, comp = gen.secret(rng), rng.choice(NETS), rng.random() < .5
    p = bytes([VERSIONS[net, 'wif']]) + d.to_bytes(32, 'big') + (b'\1' if comp else b'')
    s = codec.b58check(p)
    for _ in range(4):
        judge_wif(ctx, gen.mutate_text(rng, s))
        judge_wif(ctx, codec.b58check(gen.mutate(rng, p)))
    body = d.to_bytes(32, 'big')
    judge_wif(ctx, codec.b58check(bytes([rng.randrange(256)]) + p[1:]))                     # prefix
    judge_wif(ctx, codec.b58check(p[:33] + bytes([i % 256])))                               # compression byte
    judge_wif(ctx, codec.b58check(p[:1] + gen.fill(rng, rng.randrange(45))))                # length
    judge_wif(ctx, codec.b58check(p[:33] + rng.choice((b'\1\1', b'\1\0', b'\0', b'\2', b'\x81', b'\1\1\1'))))
    judge_wif(ctx, codec.b58check(p[:1] + body.lstrip(b'\0')))
    b = gen.bad_secret(rng)
    judge_wif(ctx, codec.b58check(p[:1] + b.to_bytes(33, 'big')[1 if b < 2**256 else 0:] + p[33:]))
    judge_wif(ctx, codec.b58enc(p + codec.sha256(p)[:4]))
    judge_wif(ctx, gen.text(rng))
    judge_wif(ctx, codec.b58enc(p))


def judge_bytes(ctx, b):
    d = int.from_bytes(b, 'big')
    if len(b) == 32 and 1 <= d < N:
        fields(ctx, ctx.ok('from_bytes-good', PrivateKey.from_bytes, b), d, 'livenet', True, 'from_bytes')
    else:
        ctx.raises(PrivateKey.Error, 'from_bytes-bad', PrivateKey.from_bytes, b)


def judge_hex(ctx, s):
    if len(s) == 64 and is_hex(s):
        d = int(s, 16)
        if 1 <= d < N:
            if s == s.lower():
                fields(ctx, ctx.ok('from_hex-good', PrivateKey.from_hex, s), d, 'livenet', True, 'from_hex')
            return
    ctx.raises(PrivateKey.Error, 'from_hex-bad', PrivateKey.from_hex, s)


def bad_bytes(ctx, rng, i):
    d = gen.secret(rng)
    b = d.to_bytes(32, 'big')
    judge_bytes(ctx, gen.fill(rng, i % 70))
    judge_bytes(ctx, gen.mutate(rng, b))
    judge_bytes(ctx, b[1:])
    judge_bytes(ctx, b'\0' + b)
    judge_bytes(ctx, b + b'\0')
    x = gen.bad_secret(rng) % 2**256
    judge_bytes(ctx, x.to_bytes(32, 'big'))
    judge_hex(ctx, '%064x' % x)
    for s in (gen.mutate_text(rng, b.hex()), b.hex()[:-1], b.hex() + '0', b.hex() + '00', '00' + b.hex(), '0x' + b.hex(),
              '0x' + b.hex()[2:], ' ' + b.hex(), b.hex() + '\n', '', gen.text(rng), b.hex()[:-2] + 'g0', b.hex()[:32], b.hex() * 2,
              b.hex()[:-1] + '٣', b.hex()[:62] + ' 1', b.hex()[:62] + '-1', b.hex()[:60] + '0_01'):
        judge_hex(ctx, s)
    ctx.seen('x', b, i % 70)


def ctor(ctx, rng, i):
    x = rng.choice((0, -1, N, N + 1, 2 * N, 2**256, -N, -(N - 1), gen.bad_secret(rng), -gen.secret(rng), N + rng.choice(gen.DICT),
                    2**256 + gen.secret(rng)))
    e = ctx.raises(PrivateKey.InvalidSecret, 'create-bad', PrivateKey, x, NET[rng.choice(NETS)], rng.random() < .5)
    for bad in (gen.text(rng), 'Testnet', 'livenet ', '', 'mainnet', None if rng.random() < .5 else 7):
        if bad not in NETS:
            ctx.raises(PrivateKey.UnknownNetwork, 'create-badnet', PrivateKey, gen.secret(rng), bad)
    ctx.seen('c', x)


def vectors(ctx, rng, i):
    import os
    rows = json.load(open(os.path.join(gen.VERIF, 'data', 'valid_wifs.json')))
    bad = json.load(open(os.path.join(gen.VERIF, 'data', 'invalid_wifs.json')))
    for r in rows:
        judge_wif(ctx, r[0])
    for r in bad:
        judge_wif(ctx, r[0])


SECTIONS = [('roundtrip', roundtrip, 12000, 250000), ('bad_wif', bad_wif, 4000, 80000), ('bad_bytes', bad_bytes, 3000, 60000),
            ('ctor', ctor, 4000, 50000), ('vectors', vectors, 8, 8)]
REQUIRE = {'to_wif': 2000, 'from_wif': 2000, 'from_wif-bad*': 5000, 'from_wif-good': 20, 'from_bytes-bad*': 2000,
           'from_hex-bad*': 2000, 'create-bad*': 1000}
