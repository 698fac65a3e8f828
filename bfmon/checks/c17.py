import hmac
from ..lib import *

ID = 'C17'
RULE = ('derivation chains from seeds, imported and constructed extended keys on both networks, with boundary indices, secrets and chain codes, with searched '
        'ones whose intermediate values have leading zero bytes, and with injected digests at the edges of validity; every field of every node, private and public, against an independent BIP32 model; '
        'non-trivial: distinct derived node')
ASSUMPTIONS = ['extended keys hold compressed keys, as BIP32 prescribes']
HARD = 1 << 31
INDICES = (0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fffff, 0x800000, 0x7ffffffe, 0x7fffffff)


def check(ctx, k, ref, what):
    """k (HDPrivateKey or HDPublicKey) is the node ref."""
    priv = ref.d is not None
    ctx.true(isinstance(k, HDPrivateKey if priv else HDPublicKey), '%s is a %s' % (what, type(k).__name__))
    ctx.eq((bytes(k.chain), k.depth, k.index, k.parent, k.network.name), (ref.chain, ref.depth, ref.index, ref.parent, ref.net), what + ': chain code, depth, index, parent, network')
    ctx.eq(k.fingerprint, ref.fp, what + ': fingerprint')
    if priv:
        ctx.eq(ctx.ok('to_private_key', k.to_private_key), k.privkey, what + ': to_private_key')
        ctx.eq((k.privkey.secret, k.privkey.network.name, k.privkey.compressed), (ref.d, ref.net, True), what + ': private key')
        ctx.event('private node')
    else:
        p = ctx.ok('to_public_key', k.to_public_key)
        ctx.eq((pair(p.pair), p.network.name, p.compressed), (ref.Q, ref.net, True), what + ': public key')
        ctx.eq(p, k.pubkey, what + ': to_public_key')
        ctx.event('public node')
    if ref.depth <= 255:
        ctx.eq(ctx.ok('to_string', k.to_string), ref.text(), what + ': text')
    ctx.seen(ref.depth, ref.index, ref.parent, ref.chain, ref.Q, priv)


def index(rng):
    k = rng.randrange(6)
    return (rng.choice(INDICES) if k < 2 else gen.uint(rng, 31) if k < 4 else rng.choice(gen.U32_DICT) % HARD if k == 4 else rng.randrange(HARD))


def derive(ctx, rng, k, ref):
    """One derivation of a private node, spelled in one of the possible ways."""
    n = index(rng)
    if rng.random() < .5:
        how = rng.randrange(4)
        args = ((n, True), (n + HARD,), (n + HARD, True), (n + HARD, False))[how]
        n += HARD
    else:
        args = ((n,), (n, False))[rng.randrange(2)]
    child = ctx.ok('derive-hardened' if n >= HARD else 'derive-normal', k.derive, *args)
    r = ref.child(n)
    check(ctx, child, r, 'derive(%s)' % (args,))
    return child, r


def public(ctx, rng, k, ref, steps):
    """The public key of a node and its normal children."""
    p, q = ctx.ok('to_hd_public_key', k.to_hd_public_key), ref.public()
    check(ctx, p, q, 'public part')
    for _ in range(steps):
        n = index(rng)
        p, q = ctx.ok('derive-public', p.derive, n, *rng.choice(((), (False,)))), q.child(n)
        check(ctx, p, q, 'public derive(%d)' % n)
    return p, q


def seed(rng):
    n = rng.choice((32, 32, 32, 33, 48, 63, 64, 64, 65, 127, 128, 129, 200, rng.randrange(32, 300)))
    return gen.fill(rng, n)


def chain(ctx, rng, i):
    s = seed(rng)
    ref = bip32.Node.seed(s)
    k = ctx.ok('from_seed', HDPrivateKey.from_seed, s)
    check(ctx, k, ref, 'root')
    ctx.sample(seed=s, root=ref.text())
    for _ in range(rng.choice((1, 2, 3, 5))):
        if rng.random() < .5:
            # the public part of the private child and the public child of the public part
            n = index(rng)
            a = ctx.ok('derive-normal', k.derive, n)
            check(ctx, a, ref.child(n), 'derive(%d)' % n)
            b = ctx.ok('derive-public', ctx.ok('to_hd_public_key', k.to_hd_public_key).derive, n)
            check(ctx, b, ref.public().child(n), 'public derive(%d)' % n)
            ctx.eq(b, ctx.ok('to_hd_public_key', a.to_hd_public_key), 'public derivation and public part of private derivation')
            ctx.event('agreed')
            if rng.random() < .5:
                k, ref = a, ref.child(n)
        else:
            k, ref = derive(ctx, rng, k, ref)
    if rng.random() < .3:
        public(ctx, rng, k, ref, 2)


def special(ctx, rng, i):
    """Searched seeds and indices: root or child secrets, coordinates, chain codes or fingerprints with leading zeros."""
    hd = gen.SPECIAL['hd']
    names = sorted(hd)
    name = names[i % len(names)]
    s, n = hd[name][i // len(names) % len(hd[name])]
    s = bytes.fromhex(s)
    ref = bip32.Node.seed(s)
    k = ctx.ok('from_seed', HDPrivateKey.from_seed, s)
    check(ctx, k, ref, 'root')
    c, r = ctx.ok('derive', k.derive, n), ref.child(n)
    check(ctx, c, r, 'child')
    if n < HARD:
        check(ctx, ctx.ok('derive-public', k.to_hd_public_key().derive, n), r.public(), 'public child')
    derive(ctx, rng, c, r)
    public(ctx, rng, c, r, 1)
    ctx.event('special ' + name)


def node(rng, priv=True, top=255):
    net = rng.choice(NETS)
    d, Q = (gen.secret(rng), None) if priv else (None, points(rng))
    depth = rng.choice((0, 1, 2, 127, 128, 254, top, rng.randrange(top + 1)))
    return bip32.Node(d, Q, gen.fill(rng, 32), min(depth, top), gen.uint(rng, 32), gen.uint(rng, 32), net)


def build(ctx, rng, r):
    """The extended key for the node r, by constructor or from text."""
    net = NET[r.net]
    if rng.random() < .5:
        key = PrivateKey(r.d, net) if r.d is not None else PublicKey(r.Q, net)
        cls = HDPrivateKey if r.d is not None else HDPublicKey
        if (r.depth, r.index, r.parent, r.net) == (0, 0, 0, 'livenet') and rng.random() < .5:
            return ctx.ok('constructor', cls, key, r.chain)
        return ctx.ok('constructor', cls, key, r.chain, r.depth, r.index, r.parent, net)
    return ctx.ok('from_string', (HDPrivateKey if r.d is not None else HDPublicKey).from_string, r.text())


def imported(ctx, rng, i):
    r = node(rng, top=254)
    k = build(ctx, rng, r)
    check(ctx, k, r, 'built')
    c, cr = derive(ctx, rng, k, r)
    if rng.random() < .4:
        public(ctx, rng, c, cr, cr.depth < 255)


def imported_public(ctx, rng, i):
    r = node(rng, False, top=253)
    k = build(ctx, rng, r)
    check(ctx, k, r, 'built')
    for _ in range(rng.choice((1, 2))):
        n = index(rng)
        k, r = ctx.ok('derive-public', k.derive, n), r.child(n)
        check(ctx, k, r, 'public derive(%d)' % n)
    ctx.event('public chain')


def deepest(ctx, rng, i):
    """The deepest keys that have a text form: their children have none, and never pass for others."""
    r = node(rng, i % 2 == 0)
    r.depth = 255
    k = build(ctx, rng, r)
    check(ctx, k, r, 'built')
    o = ctx.call('derive-deepest', k.derive, index(rng))
    if o.ok:
        c = o.value
        ctx.eq(c.depth, 256, 'depth of a child of a key at depth 255')
        ctx.raises(None, 'text-deepest', c.to_string)


class digests:
    """HMAC-SHA512 stand-ins that give the 64 bytes wanted: opens children and roots no search can find.  What was asked of
    them is recorded; an implementation that computes its HMAC in another way is simply not steered."""
    def __init__(self, out):
        self.out, self.asked = out, []

    def __enter__(self):
        self.saved = {n: getattr(hmac, n) for n in ('new', 'HMAC', 'digest')}
        outer = self

        class Fixed:
            digest_size, block_size, name = 64, 128, 'hmac-sha512'

            def __init__(self, key, msg=None, digestmod=None):
                self.key, self.msg = bytes(key), bytes(msg or b'')

            def update(self, m):
                self.msg += bytes(m)

            def digest(self):
                outer.asked.append((self.key, self.msg))
                return outer.out

            def hexdigest(self):
                return self.digest().hex()

            def copy(self):
                return Fixed(self.key, self.msg)
        hmac.new = hmac.HMAC = Fixed
        hmac.digest = lambda key, msg, digest: Fixed(key, msg).digest()
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(hmac, n, v)
        return False


def unreachable(ctx, rng, i):
    """Children and roots at the edges of validity: the left half 0, 1, around n, equal or opposite to the parent's secret."""
    r = node(rng, True, top=254)
    k = build(ctx, rng, r)
    left = (lambda: N, lambda: N + 1, lambda: (1 << 256) - 1, lambda: rng.randrange(N, 1 << 256), lambda: N - r.d, lambda: N - 1, lambda: 0, lambda: 1, lambda: r.d,
            lambda: (N - r.d + 1) % N, lambda: (N - r.d - 1) % N, lambda: (N - r.d + rng.randrange(1, 1 << rng.randrange(1, 250))) % N, lambda: gen.secret(rng),
            lambda: (rng.choice(gen.SPECIAL_SECRETS) - r.d) % N, lambda: rng.randrange(1 << rng.randrange(1, 256)))[i % 15]()
    out = left.to_bytes(32, 'big') + gen.fill(rng, 32)
    d = (left + r.d) % N
    good = left < N and d != 0
    n = index(rng) + rng.choice((0, HARD))
    with digests(out) as h:
        a = ctx.call('derive-steered', k.derive, n)
        if not h.asked:
            return
        b = ctx.call('derive-steered-public', k.to_hd_public_key().derive, n) if n < HARD else None
    ctx.true(all(x == (r.chain, (b'\0' + r.d.to_bytes(32, 'big') if n >= HARD else ec.sec(ec.gmul(r.d), True)) + n.to_bytes(4, 'big')) for x in h.asked), 'HMAC of %r' % (h.asked,))
    ctx.true(a.ok == good, 'derive(%d) when the left half of the digest is %x, parent %x: %r' % (n, left, r.d, a))
    if b is not None:
        ctx.true(b.ok == good, 'public derive(%d) when the left half of the digest is %x, parent %x: %r' % (n, left, r.d, b))
    if good:
        c = bip32.Node(d, None, out[32:], r.depth + 1, n, r.fp, r.net)
        check(ctx, a.value, c, 'steered child')
        if b is not None:
            check(ctx, b.value, c.public(), 'steered public child')
    ctx.event('steered child' if good else 'invalid child')
    s = seed(rng)
    out = rng.choice((left, 0, N, N - 1, 1)).to_bytes(32, 'big') + out[32:]
    v = int.from_bytes(out[:32], 'big')
    with digests(out) as h:
        a = ctx.call('from_seed-steered', HDPrivateKey.from_seed, s)
    if h.asked:
        ctx.true(all(x == (b'Bitcoin seed', s) for x in h.asked), 'HMAC of %r' % (h.asked,))
        ctx.true(a.ok == (0 < v < N), 'from_seed when the left half of the digest is %x: %r' % (v, a))
        if a.ok:
            check(ctx, a.value, bip32.Node(v, None, out[32:], 0, 0, 0, 'livenet'), 'steered root')


def relatives(ctx, rng, i):
    """Keys that agree in all but one respect have different children, whatever was derived before."""
    r = node(rng, i % 3 == 0, top=254)
    n = index(rng)
    near = bytearray(r.chain)
    near[rng.choice((0, 15, 31, rng.randrange(32)))] ^= 1 << rng.randrange(8)
    other = [bip32.Node(r.d, r.Q, bytes(near), r.depth, r.index, r.parent, r.net), bip32.Node(r.d, r.Q, r.chain, r.depth ^ 1 if r.depth < 254 else 0, r.index, r.parent, r.net),
             bip32.Node(r.d, r.Q, r.chain, r.depth, r.index ^ 1 << rng.randrange(32), r.parent, r.net), bip32.Node(r.d, r.Q, r.chain, r.depth, r.index, r.parent ^ 1 << rng.randrange(32), r.net),
             bip32.Node(r.d, r.Q, r.chain, r.depth, r.index, r.parent, NETS[r.net == NETS[0]]),
             bip32.Node(N - r.d, None, r.chain, r.depth, r.index, r.parent, r.net) if r.d else bip32.Node(None, (r.Q[0], P - r.Q[1]), r.chain, r.depth, r.index, r.parent, r.net)]
    a = ctx.ok('derive-normal', build(ctx, rng, r).derive, n)
    for q in rng.sample(other, 2):
        check(ctx, ctx.ok('derive-relative', build(ctx, rng, q).derive, n), q.child(n), 'child %d of a relative' % n)
    check(ctx, a, r.child(n), 'derive(%d)' % n)


def refused(ctx, rng, i):
    r = node(rng, False)
    k = build(ctx, rng, r)
    check(ctx, k, r, 'built')
    n = index(rng)
    for a in ((n, True), (n + HARD,), (n + HARD, True), (n + HARD, False)):
        ctx.raises(ValueError, 'hardened-public', k.derive, *a)
    check(ctx, k, r, 'after refused derivations')
    if i % 8 == 0:
        bad = rng.choice((-1, -2, -n - 1, -HARD, -HARD - 1, 2 * HARD, 2 * HARD + n, 3 * HARD, 1 << 40, (1 << 64) + n))
        p = PrivateKey(gen.secret(rng), NET[r.net])
        for q in (k, HDPrivateKey(p, r.chain, r.depth, r.index, r.parent, NET[r.net])):
            for a in ((bad,), (bad, True), (bad, False)):
                ctx.raises(None, 'no-such-index', q.derive, *a)
    if i % 4 == 0:
        ctx.raises(ValueError, 'short-seed', HDPrivateKey.from_seed, gen.fill(rng, rng.randrange(32)))


SECTIONS = [('chain', chain, 260, 6000), ('special', special, 70, 700), ('imported', imported, 560, 12000), ('imported-public', imported_public, 480, 10000), ('deepest', deepest, 80, 1600), ('unreachable', unreachable, 390, 6000), ('relatives', relatives, 240, 4000), ('refused', refused, 4000, 60000)]
REQUIRE = {'derive-normal': 400, 'derive-hardened': 400, 'derive-public': 500, 'agreed': 150, 'special*': 70, 'private node': 1000, 'public node': 1000,
           'hardened-public*': 5000, 'short-seed*': 500}
