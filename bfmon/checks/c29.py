from ..lib import *
from bitforge.errors import KeyValueError

ID = 'C29'
RULE = ('every attribute of both networks looked up by its value, near misses and foreign values of every attribute, unknown attributes, with and without raises; keys, addresses and extended '
        'keys of both networks told apart by their prefixes; non-trivial: distinct (value, attribute) or key')
# Bitcoin Core's chainparams.cpp
WANT = {
    'livenet': dict(name='livenet', pubkeyhash=0, scripthash=5, wif_prefix=128, hd_public_key=0x0488b21e, hd_private_key=0x0488ade4, magic=0xf9beb4d9, port=8333),
    'testnet': dict(name='testnet', pubkeyhash=111, scripthash=196, wif_prefix=239, hd_public_key=0x043587cf, hd_private_key=0x04358394, magic=0x0b110907, port=18333),
}
ATTRS = sorted(WANT['livenet'])
VALUES = [w[a] for w in WANT.values() for a in ATTRS]


def parameters(ctx, rng, i):
    for name, want in WANT.items():
        net = getattr(networks, name)
        for a, v in want.items():
            ctx.eq(getattr(net, a), v, '%s of %s' % (a, name))
            ctx.true(ctx.ok('find', networks.find, v, a) is net, 'find(%r, %r) is not %s' % (v, a, name))
            ctx.true(ctx.ok('find', networks.find, v, attr=a, raises=False) is net, 'find(%r, %r, raises=False) is not %s' % (v, a, name))
        ctx.true(ctx.ok('find', networks.find, name) is net, 'find(%r)' % name)
        ctx.true(ctx.ok('find-object', networks.find, net) is net, 'find(network)')
        a = rng.choice(ATTRS + ['nonsense'])
        ctx.true(ctx.ok('find-object', networks.find, net, a, rng.random() < .5) is net, 'find(network, %r)' % a)
        ctx.true(isinstance(net.seeds, tuple) and net.seeds and all(isinstance(s, str) and s for s in net.seeds), 'seeds of %s' % name)
    ctx.true(networks.default is networks.livenet, 'the default network')
    ctx.true(networks.livenet != networks.testnet, 'networks differ')


def custom(ctx, rng, i):
    """A network object is returned as it is, and carried by what is made for it, whether or not it is a registered one."""
    n = networks.Network(rng.choice(('regtest', 'livenet', 'x', '')), rng.randrange(256), rng.randrange(256), rng.randrange(256), gen.uint(rng, 32), gen.uint(rng, 32), gen.uint(rng, 32), rng.randrange(65536), ())
    a = rng.choice(ATTRS + ['nonsense'])
    ctx.true(ctx.ok('find-object', networks.find, n) is n, 'find(another network)')
    ctx.true(ctx.ok('find-object', networks.find, n, a, rng.random() < .5) is n, 'find(another network, %r)' % a)
    d, comp = gen.secret(rng), rng.random() < .5
    k = ctx.ok('PrivateKey', PrivateKey, d, n, comp)
    ctx.eq(codec.b58check_dec(ctx.ok('to_wif', k.to_wif)), bytes([n.wif_prefix]) + d.to_bytes(32, 'big') + b'\1' * comp, 'WIF of another network')
    h = gen.fill(rng, 20)
    for t, v in ((Address.Type.PublicKey, n.pubkeyhash), (Address.Type.Script, n.scripthash)):
        x = ctx.ok('Address', Address, h, n, t)
        ctx.true(x.network is n, 'network of the address')
        ctx.eq(codec.b58check_dec(ctx.ok('to_string', x.to_string)), bytes([v]) + h, 'address of another network')
    ctx.true(k.network is n and ctx.ok('PublicKey', PublicKey, ec.G, n).network is n and ctx.ok('from_bytes', PublicKey.from_bytes, ec.sec(ec.G), n).network is n, 'network of the key')
    ctx.true(ctx.ok('from_script', Address.from_script, Script(), n).network is n, 'network of the script address')
    ctx.true(ctx.ok('from_hex', PrivateKey.from_hex, '%064x' % d, n).network is n, 'network of the key')
    ctx.event('another network')
    ctx.seen('n', n)


def lookup(ctx, v, a):
    hits = [n for n in WANT if a in WANT[n] and WANT[n][a] == v]
    if hits:
        ctx.true(ctx.ok('find', networks.find, v, a) is NET[hits[0]], 'find(%r, %r)' % (v, a))
    else:
        e = ctx.raises(networks.UnknownNetwork, 'find-unknown', networks.find, v, a)
        ctx.true(isinstance(e, KeyValueError) and isinstance(e, BitforgeError), 'family of %r' % e)
        ctx.true(str(e).strip(), 'message')
        ctx.true(ctx.ok('find-none', networks.find, v, a, raises=False) is None, 'find(%r, %r, raises=False)' % (v, a))
    ctx.seen(v, a)


def unknown(ctx, rng, i):
    a = rng.choice(ATTRS) if rng.random() < .9 else rng.choice(('', 'Name', 'prefix', 'xyz', 'wif', 'hd', 'name ', gen.text(rng).replace('_', '')))
    for _ in range(6):
        k = rng.randrange(8)
        v = (rng.choice(VALUES) if k < 2 else gen.uint(rng, 32) if k == 2 else rng.randrange(256) if k == 3 else gen.text(rng) if k == 4 else
             gen.mutate_text(rng, rng.choice(NETS)) if k == 5 else rng.choice(gen.U32_DICT + [None, None, True, -1, '', b'', (), 1.5]))
        if k == 6 and isinstance(v, int):
            v = int.from_bytes(rng.choice(VALUES[1:3] + [0x0488b21e, 0x04358394]).to_bytes(4, 'big')[::-1], 'big')
        if k == 7:
            v = rng.choice([x for x in VALUES if isinstance(x, int)]) + rng.choice((-1, 1, 256, -256, 1 << 32, 0x80))
        lookup(ctx, v, a)
        if isinstance(v, str):
            lookup(ctx, v.upper(), a)
    if i % 16 == 0:      # one of the things an attribute holds is not the attribute
        lookup(ctx, rng.choice(rng.choice((networks.livenet, networks.testnet)).seeds), rng.choice(('seeds', 'seeds', 'name')))
        for net in NETS:
            ctx.true(ctx.ok('find', networks.find, NET[net].seeds, 'seeds') is NET[net], 'find(the seeds of %s)' % net)
        lookup(ctx, rng.choice((rng.choice(NETS)[:rng.randrange(7)], rng.choice(NETS)[rng.randrange(1, 7):], rng.choice(NETS) + 's')), 'name')
    if i < 256:
        for a in ('pubkeyhash', 'scripthash', 'wif_prefix'):
            lookup(ctx, i, a)


def apart(ctx, rng, i):
    """No text of one network is taken for one of the other; the network is the one that was asked for."""
    d, net, comp = gen.secret(rng), rng.choice(NETS), rng.random() < .5
    arg = rng.choice((net, NET[net]))
    k = ctx.ok('PrivateKey', PrivateKey, d, arg, comp)
    pub = ctx.ok('to_public_key', k.to_public_key)
    adr = ctx.ok('to_address', pub.to_address)
    for o in (k, pub, adr):
        ctx.true(o.network is NET[net], '%s: network %r' % (type(o).__name__, o.network))
    w, s = ctx.ok('to_wif', k.to_wif), ctx.ok('to_string', adr.to_string)
    p, q = codec.b58check_dec(w), codec.b58check_dec(s)
    ctx.eq(p and p[0], WANT[net]['wif_prefix'], 'WIF prefix')
    ctx.eq(q and q[0], WANT[net]['pubkeyhash'], 'address prefix')
    ctx.true(ctx.ok('from_wif', PrivateKey.from_wif, w).network is NET[net], 'network of the WIF')
    ctx.true(ctx.ok('from_string', Address.from_string, s).network is NET[net], 'network of the address')
    ctx.seen(d, net, comp)
    if i % 4 == 0:
        m = ctx.ok('HDPrivateKey', HDPrivateKey, k if comp else PrivateKey(d, arg), rng.randbytes(32), network=NET[net])
        c = ctx.ok('derive', m.derive, gen.uint(rng, 31), rng.random() < .5)
        for o in (c, c.privkey, c.to_public_key(), c.to_hd_public_key()) + ((m.to_hd_public_key().derive(1), m.to_hd_public_key().derive(1).pubkey) if i % 16 == 0 else ()):
            ctx.true(o.network is NET[net], 'network of a derived %s' % type(o).__name__)
        for o, attr, cls in ((m, 'hd_private_key', HDPrivateKey), (ctx.ok('to_hd_public_key', m.to_hd_public_key), 'hd_public_key', HDPublicKey)):
            t = ctx.ok('to_string', o.to_string)
            raw = codec.b58check_dec(t)
            ctx.eq(raw and int.from_bytes(raw[:4], 'big'), WANT[net][attr], 'version of ' + t)
            ctx.true(ctx.ok('hd-from_string', cls.from_string, t).network is NET[net], 'network of ' + t)
    bad = gen.mutate_text(rng, net)
    if bad not in NETS:
        ctx.raises(BitforgeError, 'bad-network', PrivateKey, d, bad, comp)
        ctx.raises(BitforgeError, 'bad-network', PublicKey, ec.G, bad, comp)
        ctx.raises(BitforgeError, 'bad-network', Address, rng.randbytes(20), bad)
        ctx.raises(networks.UnknownNetwork, 'bad-network', Address.from_script, Script(), bad)
        ctx.raises(networks.UnknownNetwork, 'bad-network', PrivateKey.from_bytes, d.to_bytes(32, 'big'), bad)
        ctx.raises(networks.UnknownNetwork, 'bad-network', PrivateKey.from_hex, '%064x' % d, bad, comp)
        ctx.raises(networks.UnknownNetwork, 'bad-network', PublicKey.from_bytes, ec.sec(ec.G, comp), bad)
        ctx.raises(networks.UnknownNetwork, 'bad-network', PublicKey.from_hex, ec.sec(ec.G, comp).hex(), bad)
    v = rng.choice((i % 256, rng.randrange(256)))
    raw = bytes([v]) + d.to_bytes(32, 'big') + (b'\1' if comp else b'')
    if v not in (128, 239):
        ctx.raises(PrivateKey.UnknownNetwork, 'bad-prefix', PrivateKey.from_wif, codec.b58check(raw))
    if v not in (0, 5, 111, 196):
        ctx.raises(Address.Error, 'bad-prefix', Address.from_string, codec.b58check(raw[:21]))
    ctx.sample(network=net, wif=w, address=s)


SECTIONS = [('custom', custom, 4000, 60000), ('parameters', parameters, 400, 4000), ('unknown', unknown, 12000, 300000), ('apart', apart, 1200, 30000)]
REQUIRE = {'another network': 3000, 'find': 5000, 'find-unknown*': 30000, 'find-none': 30000, 'from_wif': 800, 'hd-from_string': 500, 'bad-network*': 3000, 'bad-prefix*': 1000}
