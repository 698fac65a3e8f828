from ..lib import *

ID = 'C05'
RULE = ('addresses of keys, scripts and raw hashes on both networks through text, hex and bytes; candidates with every version '
        'byte, wrong lengths, mutated text; non-trivial: distinct address or candidate')
KIND = {'pub': Address.Type.PublicKey, 'script': Address.Type.Script}
BYVER = {v: k for k, v in VERSIONS.items() if k[1] != 'wif'}


def same(ctx, a, phash, net, kind, what):
    ctx.true(isinstance(a, Address), what + ' is an Address')
    ctx.eq((bytes(a.phash), a.network.name, a.type), (phash, net, KIND[kind]), what)


def forms(ctx, a, phash, net, kind):
    """Exports are the standard ones and import back."""
    raw = bytes([VERSIONS[net, kind]]) + phash
    same(ctx, a, phash, net, kind, 'address')
    ctx.eq(ctx.ok('to_bytes', a.to_bytes), raw, 'bytes')
    ctx.eq(ctx.ok('to_hex', a.to_hex), raw.hex(), 'hex')
    ctx.eq(ctx.ok('to_string', a.to_string), codec.b58check(raw), 'text')
    for name, f, v in (('from_string', Address.from_string, codec.b58check(raw)), ('from_hex', Address.from_hex, raw.hex()),
                       ('from_bytes', Address.from_bytes, raw)):
        b = ctx.ok(name, f, v)
        same(ctx, b, phash, net, kind, name)
        ctx.eq(b, a, name)


def raw(ctx, rng, i):
    phash, net, kind = gen.fill(rng, 20), rng.choice(NETS), rng.choice(('pub', 'script'))
    a = ctx.ok('create', Address, phash, net if rng.random() < .3 else NET[net], KIND[kind])
    forms(ctx, a, phash, net, kind)
    if rng.random() < .2:
        same(ctx, ctx.ok('create', Address, phash), phash, 'livenet', 'pub', 'Address(h)')
    ctx.seen('r', phash, net, kind)
    ctx.sample(hash=phash, network=net, type=kind, text=a.to_string())


def ofkey(ctx, rng, i):
    q, net, comp = points(rng), rng.choice(NETS), rng.random() < .5
    k = PublicKey(q, NET[net], comp)
    a = ctx.ok('pub.to_address', k.to_address) if rng.random() < .5 else ctx.ok('from_public_key', Address.from_public_key, k)
    forms(ctx, a, codec.hash160(ec.sec(q, comp)), net, 'pub')
    ctx.seen('k', q, net, comp)


def ofpriv(ctx, rng, i):
    k, net, comp = privkey(rng)
    a = ctx.ok('priv.to_address', k.to_address)
    forms(ctx, a, codec.hash160(ec.sec(ec.gmul(k.secret), comp)), net, 'pub')
    ctx.seen('p', k.secret, net, comp)


def ofscript(ctx, rng, i):
    b = gen.script_bytes(rng) if i % 40 else rs.serialize([(0x4d, gen.fill(rng, rng.choice((520, 521, 5000, 9997, 9998, 10000, 40000, 65535))))] * rng.randrange(1, 3) + gen.ops(rng, 2))
    net = rng.choice(NETS)
    s = Script.from_bytes(b)
    if rng.random() < .2:
        a = ctx.ok('from_script', Address.from_script, s)
        net = 'livenet'
    else:
        a = ctx.ok('from_script', Address.from_script, s, NET[net])
    forms(ctx, a, codec.hash160(b), net, 'script')
    if rng.random() < .2:
        ctx.raises(Address.UnknownNetwork, 'bad-net', Address.from_script, s, rng.choice(('x', '', 'Livenet', 'test', None, 0, 111, 5)))
    ctx.seen('s', b, net)


def judge(ctx, b, how):
    good = len(b) == 21 and BYVER.get(b[0])
    f, arg = {'text': (Address.from_string, codec.b58check(b)), 'hex': (Address.from_hex, b.hex()), 'bytes': (Address.from_bytes, b)}[how]
    if good:
        same(ctx, ctx.ok('good-' + how, f, arg), b[1:], *good, how)
    else:
        ctx.raises(Address.Error, 'bad-' + how, f, arg)
    ctx.seen('c', b, how)


def candidates(ctx, rng, i):
    for how in ('text', 'hex', 'bytes'):
        judge(ctx, bytes([i % 256]) + gen.fill(rng, 20), how)
        judge(ctx, rng.choice((b'\0', b'\5', b'\x6f', b'\xc4')) + gen.fill(rng, rng.choice((0, 1, 18, 19, 20, 21, 22, 32, rng.randrange(50)))), how)
        judge(ctx, gen.mutate(rng, bytes([rng.choice((0, 5, 111, 196))]) + gen.fill(rng, 20)), how)
        judge(ctx, gen.fill(rng, rng.randrange(30)), how)
        judge(ctx, gen.fill(rng, 20), how)
        judge(ctx, b'', how)


def texts(ctx, rng, i):
    s = codec.b58check(bytes([rng.choice((0, 5, 111, 196))]) + gen.fill(rng, 20))
    for t in [gen.mutate_text(rng, s) for _ in range(5)] + [gen.text(rng), s + '\n', ' ' + s, s.lower(), '1' + s, s[1:], s + s, s.replace(s[5], 'l')]:
        p = codec.b58check_dec(t)
        if p is not None and len(p) == 21 and p[0] in BYVER:
            same(ctx, ctx.ok('good-text', Address.from_string, t), p[1:], *BYVER[p[0]], 'text')
        else:
            ctx.raises(Address.Error, 'bad-text', Address.from_string, t)
        ctx.seen('t', t)
    h = (bytes([rng.choice((0, 5, 111, 196))]) + gen.fill(rng, 20)).hex()
    for t in (gen.mutate_text(rng, h), h[:-1], h + '\n', '0x' + h, ' ' + h, h[:-1] + 'g', gen.text(rng), h[:-1] + '٠'):
        if is_hex(t):
            if t == t.lower():
                judge(ctx, bytes.fromhex(t), 'hex')
        else:
            ctx.raises(Address.Error, 'bad-hex', Address.from_hex, t)


def ctor(ctx, rng, i):
    n = i % 45
    if n != 20:
        ctx.raises(Address.InvalidHashLength, 'bad-hash', Address, gen.fill(rng, n), NET[rng.choice(NETS)], KIND[rng.choice(('pub', 'script'))])
    ctx.raises(Address.InvalidType, 'bad-type', Address, gen.fill(rng, 20), NET[rng.choice(NETS)], rng.choice(('pubkeyhash', 'scripthash', None, 0, 5, 'x')))
    ctx.raises(Address.UnknownNetwork, 'bad-net', Address, gen.fill(rng, 20), rng.choice(('x', '', 'Livenet', None, 0, 111)))


def pooled(ctx, rng, i):
    """The same hash as key and script address of both networks, interleaved."""
    pool = ctx.state.setdefault('pool', [gen.fill(rng, 20) for _ in range(3)])
    h, net, kind = rng.choice(pool), rng.choice(NETS), rng.choice(('pub', 'script'))
    forms(ctx, Address(h, NET[net], KIND[kind]), h, net, kind)
    q = ctx.state.setdefault('q', [points(rng) for _ in range(2)])
    q = rng.choice(q)
    comp = rng.random() < .5
    same(ctx, ctx.ok('pub.to_address', PublicKey(q, NET[net], comp).to_address), codec.hash160(ec.sec(q, comp)), net, 'pub', 'to_address')


SECTIONS = [('raw', raw, 8000, 160000), ('ofkey', ofkey, 4000, 80000), ('ofpriv', ofpriv, 1200, 20000), ('ofscript', ofscript, 4000, 80000),
            ('candidates', candidates, 3000, 60000), ('texts', texts, 3000, 60000), ('ctor', ctor, 1000, 20000), ('pooled', pooled, 3000, 60000)]
REQUIRE = {'to_string': 3000, 'from_string': 3000, 'pub.to_address': 500, 'priv.to_address': 300, 'from_script': 1000, 'bad-text*': 2000,
           'bad-hex*': 1000, 'bad-bytes*': 1000, 'good-bytes': 100}
