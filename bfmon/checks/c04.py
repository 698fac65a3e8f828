from ..lib import *

ID = 'C04'
RULE = ('curve points with small, large, sparse and random coordinates through the SEC encodings; candidate encodings with '
        'every prefix, lengths 0-70, off-curve and out-of-range coordinates, mutations; non-trivial: distinct point or candidate')


def roundtrip(ctx, rng, i):
    q, net, comp = points(rng), rng.choice(NETS), rng.random() < .5
    k = ctx.ok('create', PublicKey, q, NET[net], comp)
    ctx.eq(tuple(k.pair), q, 'pair')
    want = ec.sec(q, comp)
    ctx.eq(ctx.ok('to_bytes', k.to_bytes), want, 'encoding of %r' % (q,))
    ctx.eq(ctx.ok('to_hex', k.to_hex), want.hex(), 'hex of %r' % (q,))
    for name, f, arg in (('from_bytes', PublicKey.from_bytes, want), ('from_hex', PublicKey.from_hex, want.hex())):
        b = ctx.ok(name, f, arg, NET[net])
        ctx.eq((tuple(b.pair), b.network.name, bool(b.compressed)), (q, net, comp), name)
        ctx.eq(b, k, name)
        ctx.eq(ctx.ok('to_bytes', b.to_bytes), want, 'encoding again')
    if rng.random() < .2:
        d = ctx.ok('from_bytes', PublicKey.from_bytes, want)
        ctx.eq((tuple(d.pair), d.network.name, bool(d.compressed)), (q, 'livenet', comp), 'from_bytes(b)')
        d = ctx.ok('create', PublicKey, q)
        ctx.eq((tuple(d.pair), d.network.name, bool(d.compressed)), (q, 'livenet', True), 'PublicKey(pair)')
    ctx.seen('q', q, comp, net)
    ctx.sample(x='%x' % q[0], y='%x' % q[1], encoded=want)


def judge(ctx, b, hexa=False):
    w = ec.parse_sec(b)
    name, f, arg = ('from_hex', PublicKey.from_hex, b.hex()) if hexa else ('from_bytes', PublicKey.from_bytes, b)
    if w is None:
        ctx.raises(PublicKey.Error, name + '-bad', f, arg)
    else:
        k = ctx.ok(name + '-good', f, arg)
        ctx.eq((tuple(k.pair), bool(k.compressed)), w, 'decoded %s' % b.hex())
        ctx.eq(ctx.ok('to_bytes', k.to_bytes), b, 'encoding again')
    ctx.seen('b', b)


def candidates(ctx, rng, i):
    q = points(rng)
    x, y = (c.to_bytes(32, 'big') for c in q)
    c, u = ec.sec(q), ec.sec(q, False)
    h = rng.random() < .3
    judge(ctx, bytes([i % 256]) + x, h)
    judge(ctx, bytes([i % 256]) + x + y, h)
    judge(ctx, gen.mutate(rng, c), h)
    judge(ctx, gen.mutate(rng, u), h)
    judge(ctx, bytes([rng.choice((2, 3))]) + gen.fill(rng, 32), h)
    judge(ctx, bytes([rng.choice((2, 3))]) + rng.randbytes(32), h)
    judge(ctx, b'\4' + gen.fill(rng, 64), h)
    judge(ctx, rng.choice((b'\2', b'\3', b'\4')) + gen.fill(rng, rng.randrange(70)), h)
    for b in (c + b'\0', u + b'\0', b'\0' + c, c[:-1], u[:-1], u[:33], c + y, b'\2' + x + y, b'\3' + x + y, b'\4' + x, b'\6' + x + y,
              b'\7' + x + y, b'\5' + x, b'\0' + x, b'\1' + x, u + u, c + c, b'\4' + y + x, b'\4' + x + ((q[1] ^ 1).to_bytes(32, 'big')),
              b'\4' + x + (P - q[1]).to_bytes(32, 'big'), bytes([5 - c[0]]) + x, b'', b'\2', b'\4'):
        judge(ctx, b, h)
    # coordinates beyond the field that are congruent to a point
    s = ec.lift_x(rng.randrange(1, 1000), 0) or (1, ec.lift_x(1, 0)[1])
    for p in (2, 3):
        judge(ctx, bytes([p]) + (s[0] + P).to_bytes(32, 'big'), h)
    judge(ctx, b'\4' + (s[0] + P).to_bytes(32, 'big') + s[1].to_bytes(32, 'big'), h)
    t = small_y(rng)
    t = (t[0], min(t[1], P - t[1]))
    judge(ctx, b'\4' + t[0].to_bytes(32, 'big') + (t[1] + P).to_bytes(32, 'big'), h)
    for v in (P, P + 1, P - 1, 0, 2**256 - 1, P + rng.randrange(2**32)):
        judge(ctx, rng.choice((b'\2', b'\3')) + v.to_bytes(32, 'big'), h)
        judge(ctx, b'\4' + v.to_bytes(32, 'big') + y, h)
        judge(ctx, b'\4' + x + v.to_bytes(32, 'big'), h)


def pairs(ctx, rng, i):
    q = points(rng)
    other = points(rng)
    for p in ((q[0], q[1] + P), (q[0] + P, q[1]), (q[0], q[1] - P), (q[0] - P, q[1]), (q[0], -q[1]), (0, 0), (0, 7), (q[1], q[0]),
              (q[0], q[1] ^ 1), (q[0] ^ 1, q[1]), (q[0], (q[1] + rng.randrange(1, P)) % P), (q[0], other[1]), (rng.randrange(P), q[1]),
              (gen.uint(rng, 256), gen.uint(rng, 256)), (q[0] + 2 * P, q[1]), (-q[0], q[1]), (1, 0), (q[0], 0), (P, q[1]), (q[0], P)):
        if ec.on_curve(*p):
            ctx.eq(tuple(ctx.ok('pair-good', PublicKey, p).pair), p, 'pair')
        else:
            ctx.raises(PublicKey.Error, 'pair-bad', PublicKey, p, NET[rng.choice(NETS)], rng.random() < .5)
    ctx.seen('p', q, other)


def bad_hex(ctx, rng, i):
    c = ec.sec(points(rng), rng.random() < .5).hex()
    for s in (gen.mutate_text(rng, c), gen.mutate_text(rng, c), c[:-1], c + '0', ' ' + c, c + '\n', '0x' + c, '', gen.text(rng), c[:-1] + 'g', c[:-1] + '١'):
        if is_hex(s):
            if s == s.lower():
                judge(ctx, bytes.fromhex(s), True)
        else:
            ctx.raises(PublicKey.InvalidHex, 'from_hex-nohex', PublicKey.from_hex, s)
    ctx.raises(PublicKey.UnknownNetwork, 'badnet', PublicKey.from_hex, c, 'nonet')


def alternating(ctx, rng, i):
    """The two points with the same x, decoded alternately in all forms."""
    pool = ctx.state.setdefault('pool', [points(rng) for _ in range(4)])
    x, y = rng.choice(pool)
    q = (x, rng.choice((y, P - y)))
    judge(ctx, ec.sec(q, rng.random() < .7), rng.random() < .5)


SECTIONS = [('roundtrip', roundtrip, 12000, 300000), ('candidates', candidates, 2600, 50000), ('pairs', pairs, 2000, 40000),
            ('bad_hex', bad_hex, 2000, 40000), ('alternating', alternating, 4000, 80000)]
REQUIRE = {'from_bytes': 3000, 'from_bytes-bad*': 5000, 'from_bytes-good': 200, 'from_hex-bad*': 500, 'pair-bad*': 3000}
