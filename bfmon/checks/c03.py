from ..lib import *
from bitforge.utils.ellipticcurve import CurveFp, Point, INFINITY
from bitforge.utils import generator_secp256k1 as G

ID = 'C03'
RULE = ('public keys of boundary and random secrets; group-law identities on secp256k1 points with scalars around and beyond '
        'the order; exhaustive small curves; non-trivial: distinct secret, scalar/point combination or curve')
PRIMES = (5, 7, 11, 13, 17, 19, 23, 29, 31, 37)


def pubkey(ctx, rng, i):
    k, net, comp = privkey(rng)
    q = ec.gmul(k.secret)
    for name, f in (('to_public_key', k.to_public_key),) if rng.random() < .7 else (('from_private_key', lambda: PublicKey.from_private_key(k)),):
        p = ctx.ok(name, f)
        ctx.eq(tuple(p.pair), q, 'public point of %x' % k.secret)
        ctx.eq(p.network.name, net, 'network of the public key')
        ctx.true(bool(p.compressed) == comp, 'compression of the public key of %r/%s' % (k, comp))
        ctx.eq(ctx.ok('to_bytes', p.to_bytes), ec.sec(q, comp), 'public key bytes of %x' % k.secret)
    ctx.seen(k.secret, net, comp)
    ctx.sample(secret='%x' % k.secret, x='%x' % q[0])


def aff(p):
    return None if p == INFINITY else (p.x(), p.y())


def scalar(rng):
    return gen.pick(rng, (3, lambda: rng.choice((0, 1, 2, 3, N - 1, N, N + 1, N - 2, 2 * N, 2 * N - 1, 2 * N + 1, 3 * N, 4 * N - 1, 4 * N - 3))),
                    (3, lambda: gen.secret(rng)), (1, lambda: gen.uint(rng, 256)), (1, lambda: N + gen.uint(rng, 256)),
                    (1, lambda: gen.uint(rng, 300)))


def group(ctx, rng, i):
    c = G.curve()
    qa = points(rng)
    A = Point(c, *qa)                       # a point that does not carry its order
    k = scalar(rng)
    ctx.eq(aff(ctx.ok('mul', lambda: A * k)), ec.mul(k, qa), '%d * %r' % (k, qa))
    j = scalar(rng)
    ctx.eq(aff(ctx.ok('gmul', lambda: j * G)), ec.gmul(j), '%d * G' % j)
    if rng.random() < .2:
        ctx.eq(aff(ctx.ok('gmul', lambda: G * -j)), ec.neg(ec.gmul(j)), '-%d * G' % j)
    Q = Point(c, qa[0], qa[1], N)
    if rng.random() < .3:
        ctx.eq(aff(ctx.ok('mul', lambda: Q * k)), ec.mul(k, qa), '%d * %r (with order)' % (k, qa))
    ctx.seen('g', qa, k, j)


def adds(ctx, rng, i):
    c = G.curve()
    a = points(rng)
    b = gen.pick(rng, (4, lambda: points(rng)), (1, lambda: a), (1, lambda: ec.neg(a)), (1, lambda: ec.add(a, a)))
    for x, y in ((a, b), (b, a), (a, a), (a, ec.neg(a)), (a, ec.add(a, a)), (a, ec.neg(ec.add(a, a)))):
        got = ctx.ok('add', lambda: Point(c, *x) + Point(c, *y))
        ctx.eq(aff(got), ec.add(x, y), '%r + %r' % (x, y))
        ctx.true(bool(Point(c, *x) == Point(c, *y)) is (x == y) and bool(Point(c, *x) != Point(c, *y)) is (x != y), 'equality of %r and %r' % (x, y))
    ctx.eq(aff(ctx.ok('double', Point(c, *a).double)), ec.add(a, a), 'double of %r' % (a,))
    A = Point(c, *a)
    ctx.eq(aff(ctx.ok('add', lambda: A + INFINITY)), a, 'A + infinity')
    ctx.eq(aff(ctx.ok('add', lambda: INFINITY + A)), a, 'infinity + A')
    ctx.eq(aff(ctx.ok('add', lambda: INFINITY + INFINITY)), None, 'infinity + infinity')
    ctx.eq(aff(ctx.ok('double', INFINITY.double)), None, 'double of infinity')
    ctx.eq(aff(ctx.ok('mul', lambda: INFINITY * scalar(rng))), None, 'k * infinity')
    ctx.eq(aff(A), a, 'operand changed')
    bad = (a[0], (a[1] + rng.randrange(1, P)) % P)
    if not ec.on_curve(*bad):
        ctx.raises(ValueError, 'badpoint', Point, c, *bad)
    ctx.true(not ctx.ok('contains', c.contains_point, *bad) or ec.on_curve(*bad), 'contains_point of a point off the curve')
    ctx.true(ctx.ok('contains', c.contains_point, *a), 'contains_point of a curve point')
    ctx.seen('a', a, b)


def madd(p, q, m, a):
    if p is None or q is None:
        return q if p is None else p
    if p[0] == q[0]:
        if (p[1] + q[1]) % m == 0:
            return None
        l = (3 * p[0] * p[0] + a) * pow(2 * p[1], -1, m)
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, m)
    x = (l * l - p[0] - q[0]) % m
    return (x, (l * (p[0] - x) - p[1]) % m)


def smallcurve(ctx, rng, i):
    """One curve over a small field: all sums, and all multiples well beyond the group order."""
    m = rng.choice(PRIMES)
    while True:
        a, b = rng.randrange(m), rng.randrange(m)
        if (4 * a**3 + 27 * b * b) % m:
            break
    c = CurveFp(m, a, b)
    pts = [(x, y) for x in range(m) for y in range(m) if (y * y - x**3 - a * x - b) % m == 0]
    for x in range(m):
        for y in range(m):
            ctx.true(bool(c.contains_point(x, y)) == ((x, y) in pts), 'contains_point(%d,%d) on y2=x3+%dx+%d mod %d' % (x, y, a, b, m))
    objs = {p: Point(c, *p) for p in pts}
    objs[None] = INFINITY
    allp = pts + [None]
    for p in allp if len(allp) < 14 else rng.sample(allp, 14):
        for q in allp:
            ctx.eq(aff(ctx.ok('add-small', lambda: objs[p] + objs[q])), madd(p, q, m, a), '%r + %r on %r' % (p, q, c))
            ctx.true(bool(objs[p] == objs[q]) is (p == q) and bool(objs[p] != objs[q]) is (p != q), 'equality of %r and %r on %r' % (p, q, c))
        ctx.eq(aff(ctx.ok('double-small', objs[p].double)), madd(p, p, m, a), 'double %r on %r' % (p, c))
    if pts:                                 # the same coordinates on another curve
        x, y = rng.choice(pts)
        a2 = rng.randrange(m)
        other = Point(CurveFp(m, a2, (y * y - x**3 - a2 * x) % m), x, y)
        if a2 != a:
            ctx.true(not objs[x, y] == other and objs[x, y] != other, 'equality of points on different curves %r' % c)
            ctx.true(not c == other.curve() if c.__class__.__eq__ is not object.__eq__ else True, 'equality of curves')
    for p in rng.sample(allp, min(4, len(allp))):
        acc, order = None, None
        for k in range(0, 2 * len(allp) + 14):
            ctx.eq(aff(ctx.ok('mul-small', lambda: objs[p] * k)), acc, '%d * %r on %r' % (k, p, c))
            acc = madd(acc, p, m, a)
            if acc is None and order is None:
                order = k + 1
        if p is not None:
            o = Point(c, p[0], p[1], order)
            for k in range(-order, 2 * order + 2, max(1, order // 4)):
                ctx.eq(aff(ctx.ok('mul-small', lambda: k * o)), aff(objs[p] * (k % order)), '%d * %r (order %d) on %r' % (k, p, order, c))
    ctx.seen('s', m, a, b)


def reuse(ctx, rng, i):
    """Few keys again and again, in both compressions and networks: no answer may depend on earlier ones."""
    pool = ctx.state.setdefault('pool', [random_secret(ctx, j) for j in range(6)])
    d = rng.choice(pool)
    net, comp = rng.choice(NETS), rng.random() < .5
    p = ctx.ok('to_public_key', PrivateKey(d, NET[net], comp).to_public_key)
    ctx.eq((tuple(p.pair), p.network.name, bool(p.compressed)), (ec.gmul(d), net, comp), 'public key of %x' % d)


def random_secret(ctx, j):
    import random
    return gen.secret(random.Random('%d/%d' % (ctx.seed, j)))


SECTIONS = [('pubkey', pubkey, 3600, 60000), ('reuse', reuse, 400, 4000), ('group', group, 1600, 30000), ('adds', adds, 4000, 60000),
            ('smallcurve', smallcurve, 240, 5000)]
REQUIRE = {'to_public_key': 800, 'from_private_key': 200, 'mul': 500, 'add': 3000, 'mul-small': 3000}
