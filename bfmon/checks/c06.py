from ..lib import *

ID = 'C06'
RULE = ('real signatures of boundary and random digests by boundary and random keys, judged by an independent ECDSA model; forged, '
        'mutated and cross-used signatures given to verify; non-trivial: distinct (key, digest) signed or distinct verify query')


def check_sig(ctx, d, z, sig):
    rs_ = ec.parse_der_strict(sig)
    ctx.true(isinstance(sig, bytes), 'signature is bytes')
    ctx.true(rs_ is not None, 'not strict DER: %s' % short_hex(sig))
    r, s = rs_
    ctx.true(1 <= r < N and 1 <= s < N, 'r or s out of range: %x %x' % (r, s))
    ctx.true(s <= N // 2, 'high S: %x' % s)
    ctx.true(ec.verify(ec.gmul(d), int.from_bytes(z, 'big'), r, s), 'signature of %s by %x does not verify' % (z.hex(), d))
    ctx.event('signature judged')
    if r < 1 << 248 or s < 1 << 247:
        ctx.event('short r or s')
    if r >> 255:
        ctx.event('r needs a zero byte')
    return r, s


def short_hex(b):
    return bytes(b).hex() if isinstance(b, (bytes, bytearray)) else repr(b)


def sign(ctx, rng, i):
    k, net, comp = privkey(rng)
    z = gen.digest(rng)
    sig = ctx.ok('sign', k.sign, z)
    check_sig(ctx, k.secret, z, sig)
    ctx.seen('s', k.secret, z)
    ctx.sample(secret='%x' % k.secret, digest=z, signature=sig)
    if i % 4 == 0:
        ctx.true(ctx.ok('verify-own', k.verify, sig, z) == True, 'own signature refused')
        other = PrivateKey(k.secret, NET['livenet' if net == 'testnet' else 'testnet'], not comp)
        ctx.true(ctx.ok('verify-own', other.verify, sig, z) == True, 'signature refused by the same secret on another network')


EDGE_S = sorted({v for b in [0, 1, 2, 7, 8, 15, 16, 63, 64, 120, 127, 128, 231, 239, 247, 248, 254] for v in ((1 << b) - 1, 1 << b, (1 << b) + 1) if 0 < v < N} |
                {N // 2 + j for j in range(-3, 5)} | {N - 1, N - 2, N - 127, N - 128, N - 129, N - 255, N - 256, N - (1 << 247), N - (1 << 248), N - (1 << 240)})


def steer(ctx, rng, i):
    """Signatures with chosen r (through the nonce) and chosen s (through the digest)."""
    k, net, comp = privkey(rng)
    d = k.secret
    nonce = rng.choice(SHORT_R) if rng.random() < .5 else rng.choice((1, 2, 3, N - 1, N - 2, rng.randrange(1, N), gen.secret(rng)))
    r = ec.gmul(nonce)[0] % N
    s = EDGE_S[i % len(EDGE_S)] if i % 8 else rng.randrange(1, N)
    v = (s * nonce - r * d) % N
    if v + N < 1 << 256 and rng.random() < .5:
        v += N
    z = v.to_bytes(32, 'big')
    with steered([nonce]):
        sig = ctx.ok('sign', k.sign, z)
    got = check_sig(ctx, d, z, sig)
    if got == (r, min(s, N - s)):
        ctx.event('chosen r and s')
    if i % 3 == 0:
        ctx.true(ctx.ok('verify-own', k.verify, sig, z) == True, 'own signature refused')
    ctx.seen('s', d, z)


def never_true(ctx, k, sig, z, what, strict=False):
    o = ctx.call('verify-' + what, k.verify, sig, z)
    if o.ok and o.value:
        p = ec.parse_der_lax(sig)
        v = int.from_bytes(z, 'big')
        if strict or p is None or not ec.verify(ec.gmul(k.secret), v, *p):
            ctx.fail('verify(%s, %s) by %x returned %r for an invalid signature (%s)' % (sig.hex(), z.hex(), k.secret, o.value, what))
        ctx.event('verify true on a valid variant')
    ctx.seen('v', k.secret, sig, z)


def forge(ctx, rng, i):
    """Reference-made signatures: the valid ones must be accepted, all broken variants refused."""
    d = gen.secret(rng)
    k = PrivateKey(d, NET[rng.choice(NETS)], rng.random() < .5)
    z = gen.digest(rng)
    v = int.from_bytes(z, 'big')
    nonce = gen.pick(rng, (4, lambda: rng.randrange(1, N)), (1, lambda: rng.choice(gen.SPECIAL_SECRETS)), (1, lambda: rng.randrange(1, 50)))
    r, s = ec.sign_k(d, v, nonce)
    if not s:
        return
    s = min(s, N - s)
    sig = ec.der(r, s)
    if rng.random() < .3:       # a digest that makes s small, or the two halves meet
        nonce = rng.choice(SHORT_R)
        r, s = ec.gmul(nonce)[0] % N, rng.choice(EDGE_S)
        v = (s * nonce - r * d) % N
        z = v.to_bytes(32, 'big')
        s = min(s, N - s)
        sig = ec.der(r, s)
    t = i % 6
    if t == 0:
        ctx.true(ctx.ok('verify-valid', k.verify, sig, z) == True, 'valid signature %s of %s by %x refused' % (sig.hex(), z.hex(), d))
    elif t == 1:
        z2 = bytearray(z)
        z2[rng.randrange(32)] ^= 1 << rng.randrange(8)
        never_true(ctx, k, sig, bytes(z2), 'other digest')
    elif t == 2:
        d2 = gen.pick(rng, (1, lambda: N - d), (1, lambda: d + 1 if d < N - 1 else 1), (2, lambda: gen.secret(rng)))
        never_true(ctx, PrivateKey(d2), sig, z, 'other key')
    elif t == 3:
        never_true(ctx, k, gen.mutate(rng, sig), z, 'mutated')
    elif t == 4:
        r2, s2 = rng.choice(((r, s + N), (r + N, s), (r, 0), (0, s), (0, 0), (s, r), (r, s ^ 1), (r ^ 1, s), (N, s), (r, N), (r, N - s), (r + 1, s),
                             (1, 1), (N - r, s), (ec.gmul(d)[0] % N, s), (r, 2 * s)))
        never_true(ctx, k, ec.der(r2, s2), z, 'other numbers')
    else:
        junk = rng.choice((b'\0', b'\x01', b'\0\0', bytes(rng.randrange(1, 9)), b'\x30', sig, rng.randbytes(rng.randrange(1, 5)), b'\n', b' ', b'\2\1\1', b'\xff'))
        body = sig[2:] + junk[:60]
        p = rng.choice((1, 3, 5 + sig[3]))      # one of the lengths
        w = rng.choice((sig[p] + 1, sig[p] - 1, sig[p] + rng.randrange(2, 40), 127, 0, rng.randrange(128), rng.randrange(256)))
        if w != sig[p]:
            never_true(ctx, k, sig[:p] + bytes([w]) + sig[p + 1:], z, 'length', True)
        never_true(ctx, k, rng.choice((sig + junk, b'\x30' + bytes([len(body)]) + body)), z, 'junk', True)
        never_true(ctx, k, rng.choice((sig + b'\0', sig + b'\x01', sig[:-1], b'', sig[1:], b'\x30\0', bytes(len(sig)), sig + sig, b'\0' + sig,
                                       sig[:3], r.to_bytes(32, 'big') + s.to_bytes(32, 'big'))), z, 'malformed')


def cross(ctx, rng, i):
    """Few keys and digests in a long history: verify answers by the pair asked now."""
    st = ctx.state
    if 'keys' not in st:
        st['keys'] = [PrivateKey(gen.secret(rng)) for _ in range(2)]
        st['z'] = [gen.digest(rng) for _ in range(2)]
        st['sigs'] = {(a, b): st['keys'][a].sign(st['z'][b]) for a in range(2) for b in range(2)}
    a, b, c, e = (rng.randrange(2) for _ in range(4))
    sig = st['sigs'][a, b]
    if rng.random() < .4:
        c, e = a, b
    if (a, b) == (c, e):
        ctx.true(ctx.ok('verify-own', st['keys'][c].verify, sig, st['z'][e]) == True, 'own signature refused')
    else:
        never_true(ctx, st['keys'][c], sig, st['z'][e], 'crossed')


SECTIONS = [('sign', sign, 1600, 30000), ('steer', steer, 600, 12000), ('forge', forge, 1200, 18000), ('cross', cross, 240, 2400)]
REQUIRE = {'signature judged': 500, 'verify-own': 200, 'verify-valid': 40, 'verify-other digest*': 20, 'verify-other key*': 20,
           'verify-mutated*': 20, 'verify-other numbers*': 20, 'verify-malformed*': 20, 'verify-junk*': 20, 'verify-length*': 50}
