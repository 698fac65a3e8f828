from ..lib import *
from bitforge.script import PayToPubkeyIn, PayToPubkeyOut, PayToScriptIn, PayToScriptOut, RedeemMultisig, OpReturnOut

ID = 'C11'
RULE = ('standard scripts built from boundary and random arguments, and scripts that differ from a standard one by one inserted, removed, '
        'replaced or moved instruction, or by the push opcodes used; non-trivial: distinct script bytes')
CLS = {'p2pkh-in': PayToPubkeyIn, 'p2pkh-out': PayToPubkeyOut, 'p2sh-in': PayToScriptIn, 'p2sh-out': PayToScriptOut, 'data': OpReturnOut, 'multisig': RedeemMultisig}


def model(ops):
    """The kind of a script, from its opcode structure."""
    st = tuple('P' if 1 <= o <= 78 else o for o, _ in ops)
    num = lambda o: o == 0 or o != 'P' and 81 <= o <= 96
    if st == ('P', 'P'):
        return 'p2pkh-in'
    if st == (118, 169, 'P', 136, 172):
        return 'p2pkh-out'
    if len(st) > 2 and st[0] == 0 and all(x == 'P' for x in st[1:]):
        return 'p2sh-in'
    if st == (169, 'P', 135):
        return 'p2sh-out'
    if st == (106, 'P'):
        return 'data'
    if len(st) >= 4 and st[-1] == 174 and num(st[0]) and num(st[-2]) and all(x == 'P' for x in st[1:-2]):
        return 'multisig'
    return None


def same_key(k, q, comp):
    return isinstance(k, PublicKey) and pair(k.pair) == tuple(q) and k.compressed == comp


def classified(ctx, s, kind, b, what):
    """s must be of the class of `kind` (None: plain Script) and carry the bytes b."""
    want = CLS[kind] if kind else None
    got = type(s)
    if want is None:
        ctx.true(not any(isinstance(s, c) for c in CLS.values()) and isinstance(s, Script), '%s: %s is %s, expected a plain Script' % (what, b[:200].hex(), got.__name__))
    else:
        ctx.true(isinstance(s, want), '%s: %s is %s, expected %s' % (what, b[:200].hex(), got.__name__, want.__name__))
    ctx.true(ctx.ok('classify', Script.classify, s) is want, '%s: classify' % what)
    ctx.eq(s.to_bytes(), b, what + ': bytes')
    ops = rs.parse(b)
    for k, c in CLS.items():
        ctx.eq(bool(ctx.ok('is_valid', c.is_valid, s)), structural(k, ops), '%s: %s.is_valid(%s)' % (what, c.__name__, b[:200].hex()))
    ctx.event('kind ' + str(kind))
    if kind:
        taken_apart(ctx, s, kind, ops, what)


def taken_apart(ctx, s, kind, ops, what):
    """The getters give exactly what the script carries."""
    d = [x for _, x in ops]
    key = lambda f, name, blobs: keys_out(ctx, f, name, blobs, what)
    if kind == 'p2pkh-in':
        ctx.eq(bytes(ctx.ok('get_signature', s.get_signature)), d[0], what + ': get_signature')
        key(lambda: [s.get_public_key()], 'get_public_key', d[1:])
    elif kind == 'p2pkh-out':
        ctx.eq(bytes(ctx.ok('get_address_hash', s.get_address_hash)), d[2], what + ': get_address_hash')
    elif kind == 'p2sh-in':
        ctx.eq([bytes(x) for x in ctx.ok('get_signatures', s.get_signatures)], d[1:-1], what + ': get_signatures')
        if rs.parse(d[-1]) is not None:
            ctx.eq(ctx.ok('get_script', s.get_script).to_bytes(), d[-1], what + ': get_script')
        else:
            ctx.raises(BitforgeError, 'bad-get_script', s.get_script)
    elif kind == 'p2sh-out':
        ctx.eq(bytes(ctx.ok('get_script_hash', s.get_script_hash)), d[1], what + ': get_script_hash')
    elif kind == 'data':
        ctx.eq(bytes(ctx.ok('get_data', s.get_data)), d[1], what + ': get_data')
    else:
        ctx.eq(ctx.ok('get_min_signatures', s.get_min_signatures), max(0, ops[0][0] - 80), what + ': get_min_signatures')
        key(s.get_public_keys, 'get_public_keys', d[1:-2])


def keys_out(ctx, f, name, blobs, what):
    want = [ec.parse_sec(x) for x in blobs]
    if None in want:
        ctx.raises(PublicKey.Error, 'bad-' + name, f)
    else:
        got = ctx.ok(name, f)
        ctx.true([(pair(k.pair), k.compressed) for k in got] == [tuple(w) for w in want], '%s: %s' % (what, name))


def structural(kind, ops):
    return model(ops) == kind       # the six structures exclude each other




def built(ctx, s, kind, b):
    ctx.eq(ctx.ok('to_bytes', s.to_bytes), b, kind + ' builder')
    classified(ctx, s, kind, b, 'built ' + kind)
    t = ctx.ok('from_bytes', Script.from_bytes, b)
    classified(ctx, t, kind, b, 'parsed ' + kind)
    ctx.eq(t, s, 'built and parsed script')
    u = ctx.ok('create', Script.create, list(s.instructions))
    classified(ctx, u, kind, b, 're-created ' + kind)
    ctx.seen(b)
    ctx.sample(kind=kind, script=b)
    return (s, t, u)


def sig(rng):
    return gen.pick(rng, (3, lambda: ec.der(gen.secret(rng), gen.secret(rng)) + b'\1'), (1, lambda: gen.fill(rng, rng.randrange(1, 80))))


def p2pkh_in(ctx, rng, i):
    q, comp = points(rng), rng.random() < .5
    k, g = PublicKey(q, NET[rng.choice(NETS)], comp), sig(rng)
    s = ctx.ok('p2pkh-in', PayToPubkeyIn.create, k, g)
    for x in built(ctx, s, 'p2pkh-in', rs.push(g) + rs.push(ec.sec(q, comp))):
        ctx.true(same_key(ctx.ok('get_public_key', x.get_public_key), q, comp), 'get_public_key')
        ctx.eq(bytes(ctx.ok('get_signature', x.get_signature)), g, 'get_signature')


def p2pkh_out(ctx, rng, i):
    h = gen.fill(rng, 20)
    a = Address(h, NET[rng.choice(NETS)])
    s = ctx.ok('p2pkh-out', PayToPubkeyOut.create, a)
    for x in built(ctx, s, 'p2pkh-out', b'\x76\xa9\x14' + h + b'\x88\xac'):
        ctx.eq(bytes(ctx.ok('get_address_hash', x.get_address_hash)), h, 'get_address_hash')


def redeem(rng):
    while True:
        b = gen.script_bytes(rng, rng.randrange(1, 8), top=rng.choice((40, 300)))
        if b:
            return b


def p2sh_in(ctx, rng, i):
    if rng.random() < .3:
        n = rng.randrange(1, 17)
        b = multisig_bytes([(points(rng), True) for _ in range(n)], rng.randrange(1, n + 1))
    else:
        b = redeem(rng)
    gs = [sig(rng) for _ in range(rng.choice((1, 1, 2, 3, 15, 16, rng.randrange(1, 20))))]
    keep = list(gs)
    s = ctx.ok('p2sh-in', PayToScriptIn.create, Script.from_bytes(b), gs)
    ctx.true(gs == keep, 'the list of signatures was changed')
    for x in built(ctx, s, 'p2sh-in', b'\0' + b''.join(map(rs.push, gs)) + rs.push(b)):
        r = ctx.ok('get_script', x.get_script)
        ctx.eq(r.to_bytes(), b, 'get_script')
        ctx.eq(r, Script.from_bytes(b), 'get_script')
        ctx.eq([bytes(g) for g in ctx.ok('get_signatures', x.get_signatures)], gs, 'get_signatures')


def p2sh_out(ctx, rng, i):
    b = redeem(rng)
    s = ctx.ok('p2sh-out', PayToScriptOut.create, Script.from_bytes(b))
    h = codec.hash160(b)
    ctx.eq(ctx.ok('to_hash', Script.from_bytes(b).to_hash), h, 'to_hash')
    for x in built(ctx, s, 'p2sh-out', b'\xa9\x14' + h + b'\x87'):
        ctx.eq(bytes(ctx.ok('get_script_hash', x.get_script_hash)), h, 'get_script_hash')


def data(ctx, rng, i):
    d = gen.fill(rng, rng.choice((1, 2, 75, 76, 77, 79, 80, 81, 255, 256, 300, i % 100 + 1)))
    s = ctx.ok('data', OpReturnOut.create, d)
    for x in built(ctx, s, 'data', b'\x6a' + rs.push(d)):
        ctx.eq(bytes(ctx.ok('get_data', x.get_data)), d, 'get_data')


def multisig_bytes(keys, m):
    return bytes([80 + m]) + b''.join(rs.push(ec.sec(q, c)) for q, c in keys) + bytes([80 + len(keys), 174])


def multisig(ctx, rng, i):
    n = i % 16 + 1
    m = rng.randrange(1, n + 1)
    keys = [(points(rng), rng.random() < .7) for _ in range(n)]
    if rng.random() < .1:
        keys[rng.randrange(n)] = keys[0]
    objs = [PublicKey(q, NET[rng.choice(NETS)], c) for q, c in keys]
    given = rng.choice((list, tuple))(objs)
    s = ctx.ok('multisig', RedeemMultisig.create, given, m)
    ctx.true(list(given) == objs, 'the list of keys was changed')
    for x in built(ctx, s, 'multisig', multisig_bytes(keys, m)):
        ctx.eq(ctx.ok('get_min_signatures', x.get_min_signatures), m, 'get_min_signatures')
        got = ctx.ok('get_public_keys', x.get_public_keys)
        ctx.true(len(got) == n and all(same_key(k, q, c) for k, (q, c) in zip(got, keys)), 'get_public_keys')
    if i % 8 == 0:
        many = [PublicKey(points(rng)) for _ in range(17)]
        ctx.raises(None, 'bad-multisig', RedeemMultisig.create, many, rng.randrange(1, 17))
        ctx.raises(None, 'bad-multisig', RedeemMultisig.create, many[:16], rng.choice((17, -1, 20, 100)))


def judge(ctx, ops):
    b = rs.serialize(ops)
    s = ctx.ok('from_bytes', Script.from_bytes, b)
    classified(ctx, s, model(ops), b, 'parsed')
    ctx.seen(b)


def standard_ops(rng):
    d = lambda n: (n, gen.fill(rng, n))
    n = rng.randrange(1, 5)
    return rng.choice(([d(71), d(33)], [(118, None), (169, None), d(20), (136, None), (172, None)], [(0, None)] + [d(72)] * n + [d(40)], [(169, None), d(20), (135, None)],
                       [(106, None), d(rng.randrange(1, 75))], [(80 + n, None)] + [d(33)] * n + [(80 + n, None), (174, None)]))


NEAR = [(0, None), (79, None), (80, None), (81, None), (96, None), (97, None), (105, None), (106, None), (107, None), (117, None), (118, None), (119, None), (135, None),
        (136, None), (137, None), (168, None), (169, None), (170, None), (171, None), (172, None), (173, None), (174, None), (175, None), (253, None), (255, None)]


def near(ctx, rng, i):
    ops = standard_ops(rng)
    judge(ctx, ops)
    for _ in range(6):
        u = list(ops)
        for _ in range(rng.choice((1, 1, 2))):
            k, p = rng.randrange(6), rng.randrange(len(u)) if u else 0
            if k == 0 and u:
                del u[p]
            elif k == 1:
                u.insert(rng.randrange(len(u) + 1), rng.choice(NEAR) if rng.random() < .7 else gen.push_op(rng, 80))
            elif k == 2 and u:
                u[p] = rng.choice(NEAR)
            elif k == 3 and u:
                u[p] = gen.push_op(rng, 80) if rng.random() < .7 else (rng.choice((76, 77, 78)), b'')
            elif k == 4 and u:
                o, dd = u[p]
                if dd is not None:
                    u[p] = rng.choice(((76, dd[:255]), (77, dd), (78, dd)))
            elif k == 5 and len(u) > 1:
                q = rng.randrange(len(u))
                u[p], u[q] = u[q], u[p]
        judge(ctx, u)


def anything(ctx, rng, i):
    judge(ctx, gen.ops(rng, rng.choice((0, 1, 2, 3, 4, 5, 6, rng.randrange(30))), named=False, push_p=rng.choice((.2, .5, .9))))
    # all scripts of up to three instructions over a small alphabet
    al = NEAR + [(1, b'\1'), (76, b'')]
    x = i
    ops = []
    for _ in range(i % 4 + 1):
        x, r = divmod(x * 7919 + i // 3, len(al))
        ops.append(al[r])
    judge(ctx, ops)


SECTIONS = [('p2pkh-in', p2pkh_in, 1200, 24000), ('p2pkh-out', p2pkh_out, 2400, 48000), ('p2sh-in', p2sh_in, 1600, 32000), ('p2sh-out', p2sh_out, 2400, 48000),
            ('data', data, 2400, 48000), ('multisig', multisig, 1600, 24000), ('near', near, 6000, 120000), ('anything', anything, 8000, 160000)]
REQUIRE = {'kind p2pkh-in': 1000, 'kind p2pkh-out': 1000, 'kind p2sh-in': 1000, 'kind p2sh-out': 1000, 'kind data': 1000, 'kind multisig': 1000, 'kind None': 3000,
           'get_public_keys': 500, 'get_signatures': 500}
