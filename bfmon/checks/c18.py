from ..lib import *
from . import c17

ID = 'C18'
RULE = ('extended keys of both kinds and networks at boundary depths, indices and parents; candidate texts with every field altered under a correct checksum, wrong '
        'lengths and versions, invalid key material, and mutated characters; non-trivial: distinct text')
ASSUMPTIONS = ['a refused text may be refused with any exception', 'depth is at most 255 and index and parent below 2^32, as the text form requires']


def round_(ctx, rng, i):
    r = c17.node(rng, False)
    k = c17.build(ctx, rng, r)
    trip(ctx, k, r)
    if i % 16 == 0:
        n = c17.index(rng)
        if r.depth < 255:
            again = HDPublicKey.from_string(r.text())
            c17.check(ctx, ctx.ok('derive-imported', again.derive, n), r.child(n), 'child of the imported key')


def trip(ctx, k, r):
    text = ctx.ok('to_string', k.to_string)
    ctx.eq(text, r.text(), 'text')
    ctx.true(isinstance(text, str), 'text type')
    b = ctx.ok('from_string', type(k).from_string, text)
    c17.check(ctx, b, r, 'imported')
    if r.d is None:
        root = bip32.Node(None, r.Q, r.chain, 0, 0, 0, 'livenet')
        c17.check(ctx, ctx.ok('defaults', HDPublicKey, PublicKey(r.Q), r.chain), root, 'HDPublicKey(key, chain)')
    else:
        root = bip32.Node(r.d, r.Q, r.chain, 0, 0, 0, 'livenet')
        c17.check(ctx, ctx.ok('defaults', HDPrivateKey, PrivateKey(r.d), r.chain), root, 'HDPrivateKey(key, chain)')
    ctx.true(b == k and not b != k and hash(b) == hash(k), 'imported key equals the original')
    ctx.eq(ctx.ok('to_string', b.to_string), text, 'text again')
    ctx.seen(text)
    ctx.sample(text=text)


def private(ctx, rng, i):
    r = c17.node(rng)
    k = c17.build(ctx, rng, r)
    trip(ctx, k, r)
    p = ctx.ok('to_hd_public_key', k.to_hd_public_key)
    trip(ctx, p, r.public())
    if r.depth < 255:
        again = HDPrivateKey.from_string(r.text())
        n = c17.index(rng) + rng.choice((0, c17.HARD))
        c17.check(ctx, ctx.ok('derive-imported', again.derive, n), r.child(n), 'child of the imported key')


def judge(ctx, s, how):
    """A candidate text for both importers."""
    raw = codec.b58check_dec(s) if isinstance(s, str) else None
    for priv, cls in ((True, HDPrivateKey), (False, HDPublicKey)):
        good = None
        if raw is not None and len(raw) == 78:
            v = int.from_bytes(raw[:4], 'big')
            nets = [n for n in NETS if bip32.VERS[n, priv] == v]
            if nets:
                if priv:
                    d = int.from_bytes(raw[46:], 'big')
                    good = raw[45] == 0 and 1 <= d < N
                    d, Q = d, None
                else:
                    sec = ec.parse_sec(raw[45:])
                    good = sec is not None
                    d, Q = None, sec and sec[0]
        if good:
            r = bip32.Node(d, Q, raw[13:45], raw[4], int.from_bytes(raw[9:13], 'big'), int.from_bytes(raw[5:9], 'big'), nets[0])
            c17.check(ctx, ctx.ok('from_string', cls.from_string, s), r, how)
            ctx.event('good-' + how)
        else:
            ctx.raises(None, 'bad-%s-%s' % (how, 'prv' if priv else 'pub'), cls.from_string, s)
    ctx.seen(s)


VERSIONS_ = sorted(bip32.VERS.values())


def base(rng):
    return bytearray(c17.node(rng, rng.random() < .4).payload())


def fields(ctx, rng, i):
    """Wrong contents under a correct checksum."""
    b = base(rng)
    k = rng.randrange(9)
    if k == 0:
        how = 'version'
        b[:4] = gen.pick(rng, (3, lambda: rng.choice(VERSIONS_).to_bytes(4, 'big')), (2, lambda: (rng.choice(VERSIONS_) + rng.choice((-1, 1, 256, 1 << 16))).to_bytes(4, 'big')),
                         (1, lambda: gen.mutate(rng, b[:4])[:4].ljust(4, b'\0')), (1, lambda: rng.randbytes(4)), (1, lambda: b'\0\0\0\0'))
    elif k == 1:
        how = 'length'
        n = rng.choice((0, 1, 4, 5, 13, 45, 46, 77, 79, 80, 82, 110, 111, 200, rng.randrange(100)))
        b = (b + rng.randbytes(200))[:n]
    elif k == 2:
        how = 'length'
        p = rng.choice((4, 5, 9, 13, 45, 46, 78))
        if rng.random() < .5:
            b[p:p] = rng.choice((b'\0', b'\1', rng.randbytes(1)))
        else:
            del b[min(p, 77)]
    elif k == 3:
        how = 'zero-byte'
        b[45] = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 0x80, 0xff, rng.randrange(256)))
    elif k == 4:
        how = 'material'
        b[46:] = gen.pick(rng, (2, lambda: rng.choice((0, 1, N - 1, N, N + 1, P - 1, P, P + 1, 2**256 - 1)).to_bytes(32, 'big')), (1, lambda: (gen.bad_secret(rng) % 2**256).to_bytes(32, 'big')),
                          (2, lambda: gen.fill(rng, 32)))
    elif k == 5:
        how = 'x-coordinate'
        b[46:] = (int.from_bytes(b[46:], 'big') + rng.choice((-1, 1, 2, 3)) & (1 << 256) - 1).to_bytes(32, 'big')
    elif k == 6:
        how = 'byte'
        b[rng.randrange(78)] = rng.randrange(256)
    elif k == 7:
        how = 'prefix'
        b[45] = rng.choice((2, 3, 0, 4, 5))
    else:
        how = 'mutated'
        b = gen.mutate(rng, b)
    judge(ctx, codec.b58check(b), how)


def versions(ctx, rng, i):
    """Every version that differs from a known one in one byte or by a power of two."""
    if not ctx.state.get('stock'):
        ctx.state['stock'] = [bytes(base(rng)) for _ in range(4)]
    b = bytearray(rng.choice(ctx.state['stock']))
    v, k = VERSIONS_[i % 4], i // 4
    if k < 1024:
        x = bytearray(v.to_bytes(4, 'big'))
        x[k >> 8] = k & 255
    else:
        x = ((v + (-1) ** k * (1 << (k - 1024) // 2 % 32)) % 2**32).to_bytes(4, 'big')
    b[:4] = x
    judge(ctx, codec.b58check(b), 'version')


def swapped(ctx, rng, i):
    """Each importer refuses the other kind, whatever the material."""
    r = c17.node(rng, i % 2 == 0)
    b = bytearray(r.payload())
    other = bip32.VERS[rng.choice(NETS), r.d is None].to_bytes(4, 'big')
    judge(ctx, codec.b58check(other + bytes(b[4:])), 'kind')
    judge(ctx, codec.b58check(b), 'kind')
    ctx.raises(None, 'other-kind', (HDPublicKey if r.d is not None else HDPrivateKey).from_string, r.text())


def characters(ctx, rng, i):
    t = c17.node(rng, rng.random() < .2).text()
    for _ in range(3):
        judge(ctx, gen.mutate_text(rng, t), 'text')
    # a checksum that differs in one bit
    raw = codec.b58dec(t)
    p = rng.randrange(32)
    x = bytearray(raw)
    x[-1 - p // 8] ^= 1 << p % 8
    judge(ctx, codec.b58enc(x), 'checksum')
    if rng.random() < .2:
        judge(ctx, gen.text(rng, 120), 'text')


SECTIONS = [('public', round_, 5000, 100000), ('private', private, 320, 6000), ('fields', fields, 6000, 120000), ('versions', versions, 4352, 4352), ('swapped', swapped, 800, 12000), ('characters', characters, 2000, 40000)]
REQUIRE = {'to_string': 3000, 'derive-imported': 300, 'bad-version*': 500, 'bad-length*': 500, 'bad-zero-byte*': 300, 'bad-material*': 300, 'bad-text*': 2000, 'bad-checksum*': 1000, 'good-*': 300}
