from ..lib import *
from bitforge.script import RedeemMultisig, PayToPubkeyIn, PayToScriptIn
from . import c11, c12

ID = 'C27'
RULE = ('every builder with boundary amounts, outpoints and sequence numbers, both address types, networks and compressions, multisig sets of 1..16 keys and 0..81+ data bytes; '
        'can_sign with the right, too few, too many, repeated, foreign and differently compressed keys; non-trivial: distinct built object or key set asked')
ASSUMPTIONS = ['the keys of a multisig set are distinct', 'AddressInput is given key-hash addresses']


def out(ctx, o, amount, script, cls, what):
    ctx.true(isinstance(o, cls), '%s is a %s' % (what, type(o).__name__))
    ctx.eq(o.amount, amount, what + ': amount')
    ctx.eq(ctx.ok('script', o.script.to_bytes), script, what + ': script')
    b = amount.to_bytes(8, 'little') + codec.varint(len(script)) + script
    ctx.eq(ctx.ok('to_bytes', o.to_bytes), b, what + ': bytes')
    ctx.seen(what, b)
    p = ctx.ok('from_bytes', Output.from_bytes, b)
    ctx.true(type(p) is KIND[c11.model(rs.parse(script))], '%s parsed is a %s' % (what, type(p).__name__))
    ctx.eq((p.amount, p.script.to_bytes()), (amount, script), what + ' parsed')
    ctx.event(what)


KIND = {'p2pkh-out': AddressOutput, 'p2sh-out': ScriptOutput, 'data': DataOutput, None: Output, 'p2pkh-in': Output, 'p2sh-in': Output, 'multisig': Output}
P2SH = lambda b: b'\xa9\x14' + codec.hash160(b) + b'\x87'


def keyset(rng, n=None):
    n = n or rng.choice((1, 2, 2, 3, 3, 4, 5, 7, 10, 15, 16))
    ks = {}
    while len(ks) < n:
        q = ec.neg(rng.choice(list(ks))) if ks and rng.random() < .1 else points(rng)
        ks[q] = rng.random() < .7
    return list(ks.items()), rng.randrange(1, n + 1)


def outputs(ctx, rng, i):
    amount = gen.uint(rng, 64)
    h, net, typ = gen.fill(rng, 20), rng.choice(NETS), rng.choice(('pub', 'script'))
    a = Address(h, NET[net], Address.Type.PublicKey if typ == 'pub' else Address.Type.Script)
    out(ctx, ctx.ok('AddressOutput', AddressOutput.create, amount, a), amount, b'\x76\xa9\x14' + h + b'\x88\xac' if typ == 'pub' else b'\xa9\x14' + h + b'\x87', AddressOutput, 'output to a %s address' % typ)
    b = c11.redeem(rng) if rng.random() < .7 else b'' if rng.random() < .3 else c12.script(rng) if rng.random() < .5 else bytes(rng.choice((0, *range(79, 256))) for _ in range(rng.randrange(1, 120)))
    out(ctx, ctx.ok('ScriptOutput', ScriptOutput.create, amount, Script.from_bytes(b)), amount, P2SH(b), ScriptOutput, 'output to a script')
    d = gen.fill(rng, rng.choice((1, 2, 20, 74, 75, 76, 77, 78, 79, 80, 80, rng.randrange(1, 81))))
    out(ctx, ctx.ok('DataOutput', DataOutput.create, d), 0, b'\x6a' + rs.push(d), DataOutput, 'data output')
    ctx.raises(DataOutput.TooMuchData, 'too-much-data', DataOutput.create, gen.fill(rng, rng.choice((81, 82, 100, 255, 256, 520, 600, rng.randrange(81, 1000)))))
    ctx.sample(amount=amount, address=a.to_string(), data=d)


def multisig_outputs(ctx, rng, i):
    keys, m = keyset(rng, i % 16 + 1)
    amount = gen.uint(rng, 64)
    objs = [PublicKey(q, NET[rng.choice(NETS)], c) for q, c in keys]
    given = rng.choice((list, tuple))(objs)
    o = ctx.ok('MultisigOutput', MultisigOutput.create, amount, given, m)
    ctx.eq(list(given), objs, 'the list of keys')
    redeem = c11.multisig_bytes(keys, m)
    out(ctx, o, amount, P2SH(redeem), MultisigOutput, 'multisig output')
    ctx.eq(ctx.ok('ScriptOutput', ScriptOutput.create, amount, ctx.ok('RedeemMultisig', RedeemMultisig.create, objs, m)).to_bytes(), o.to_bytes(), 'script output for the same multisig set')


def outpoint(rng):
    return gen.fill(rng, 32)[::-1].hex(), gen.uint(rng, 32), gen.uint(rng, 32)


def inp(ctx, rng, name, create, arg, script, cls):
    tid, idx, seq = outpoint(rng)
    more = rng.random() < .7
    o = ctx.ok(name, create, tid, idx, *arg, *((seq,) if more else ()))
    if not more:
        seq = 0xffffffff
    ctx.true(isinstance(o, cls), '%s made a %s' % (name, type(o).__name__))
    ctx.eq((o.tx_id, o.txo_index, o.seq_number), (tid, idx, seq), name + ': outpoint and sequence number')
    ctx.eq(o.script.to_bytes(), script, name + ': script to commit to')
    # the script of an input can be replaced or removed, the rest stays
    s2 = c12.script(rng)
    for what, x, want in (('replace_script', ctx.ok('replace_script', o.replace_script, Script.from_bytes(s2)), s2), ('remove_script', ctx.ok('remove_script', o.remove_script), b'')):
        ctx.eq((x.tx_id, x.txo_index, x.seq_number, x.script.to_bytes()), (tid, idx, seq, want), what)
    ctx.eq((o.tx_id, o.txo_index, o.seq_number, o.script.to_bytes()), (tid, idx, seq, script), name + ' after replacing its script')
    ctx.event('input built')
    ctx.seen(name, tid, idx, seq, script)
    return o


def inputs(ctx, rng, i):
    h = gen.fill(rng, 20)
    inp(ctx, rng, 'AddressInput', AddressInput.create, (Address(h, NET[rng.choice(NETS)]),), b'\x76\xa9\x14' + h + b'\x88\xac', AddressInput)
    b = c12.script(rng)
    inp(ctx, rng, 'ScriptInput', ScriptInput.create, (Script.from_bytes(b),), b, ScriptInput)
    keys, m = keyset(rng)
    inp(ctx, rng, 'MultisigInput', MultisigInput.create, ([PublicKey(q, NET[rng.choice(NETS)], c) for q, c in keys], m), c11.multisig_bytes(keys, m), MultisigInput)


IN = {'p2pkh-in': AddressInput, 'p2sh-in': ScriptInput}


def classes(ctx, rng, i):
    """Inputs and outputs created from a script are classified by it."""
    ops = c11.standard_ops(rng) if rng.random() < .6 else rs.parse(c12.script(rng))
    if rng.random() < .1:       # many pushes
        ops = rng.choice(([], [(0, None)], [(0, None)], [(81, None)])) + rng.choice((lambda: gen.ops(rng, 1, push_p=1), lambda: [(1, b'x')]))() * rng.randrange(1, 60) + rng.choice(([], [], [(96, None), (174, None)]))
    if rng.random() < .3 and ops:
        ops = list(ops)
        p = rng.randrange(len(ops))
        ops[p] = rng.choice(c11.NEAR)
    b = rs.serialize(ops)
    kind = c11.model(ops)
    s = Script.from_bytes(b) if rng.random() < .5 else Script(Script.from_bytes(b).instructions)
    tid, idx, seq = outpoint(rng)
    x = ctx.ok('Input.create', Input.create, tid, idx, s, seq)
    want = IN.get(kind, Input)
    ctx.true(type(x) is want, 'Input.create with %s made a %s, expected %s' % (b.hex(), type(x).__name__, want.__name__))
    ctx.eq((x.tx_id, x.txo_index, x.seq_number, x.script.to_bytes()), (tid, idx, seq, b), 'Input.create')
    a = gen.uint(rng, 64)
    y = ctx.ok('Output.create', Output.create, a, s)
    ctx.true(type(y) is KIND[kind], 'Output.create with %s made a %s, expected %s' % (b.hex(), type(y).__name__, KIND[kind].__name__))
    ctx.eq((y.amount, y.script.to_bytes()), (a, b), 'Output.create')
    z = ctx.ok('from_bytes', Output.from_bytes, y.to_bytes())
    ctx.true(type(z) is KIND[kind], 'Output.from_bytes with %s made a %s' % (b.hex(), type(z).__name__))
    ctx.event('class ' + type(y).__name__)
    ctx.event('class ' + type(x).__name__)


def ask(ctx, o, keys, want, what):
    given = list(keys)
    got = ctx.ok('can_sign', o.can_sign, given)
    ctx.true(bool(got) is want, 'can_sign(%s) of %s is %r' % (what, o.script.to_bytes().hex(), got))
    ctx.eq(given, list(keys), 'the list of keys')
    ctx.event('can sign' if want else 'cannot sign')
    ctx.seen('can', o.script.to_bytes(), [k.to_wif() for k in keys])


def address_can(ctx, rng, i):
    d, comp = gen.secret(rng), rng.random() < .5
    h = codec.hash160(ec.sec(ec.gmul(d), comp))
    o = AddressInput.create('00' * 32, 0, Address(h, NET[rng.choice(NETS)]))
    key = lambda d, c: PrivateKey(d, NET[rng.choice(NETS)], c)
    ask(ctx, o, [key(d, comp)], True, 'the key')
    ask(ctx, o, [], False, 'no key')
    x = bytearray(h)
    x[rng.randrange(20)] ^= 1 << rng.randrange(8)
    ask(ctx, AddressInput.create('00' * 32, 0, Address(bytes(x), NET[rng.choice(NETS)])), [key(d, comp)], False, 'an address that differs in one bit')
    k = rng.randrange(4)
    if k == 0:
        ask(ctx, o, [key(d, not comp)], False, 'the key with the other compression')
    elif k == 1:
        ask(ctx, o, [key(d, comp), key(d, comp)], False, 'the key twice')
    elif k == 2:
        ask(ctx, o, [key(rng.choice((N - d, d % (N - 1) + 1)), comp)], False, 'another key')
    else:
        ask(ctx, o, [key(d, comp), key(gen.secret(rng), comp)], False, 'two keys')


def multisig_can(ctx, rng, i):
    n = rng.choice((1, 2, 2, 3, 3, 4, 5))
    m = rng.randrange(1, n + 1)
    ds = []
    while len(ds) < n + 1:
        d = gen.secret(rng)
        if ds and rng.random() < .15:
            d = N - rng.choice(ds)
        if d not in ds:
            ds.append(d)
    foreign = ds.pop()
    comps = [rng.random() < .7 for _ in ds]
    pubs = [PublicKey(ec.gmul(d), NET[rng.choice(NETS)], c) for d, c in zip(ds, comps)]
    o = MultisigInput.create('11' * 32, 1, pubs, m)
    if rng.random() < .3:
        o = MultisigInput('11' * 32, 1, Script.from_bytes(o.script.to_bytes()))     # as after parsing
    key = lambda j: PrivateKey(ds[j], NET[rng.choice(NETS)], comps[j])
    who = rng.sample(range(n), m)
    ask(ctx, o, [key(j) for j in who], True, '%d of %d keys' % (m, n))
    k = rng.randrange(5)
    if k == 0:
        ask(ctx, o, [key(j) for j in who[1:]], False, 'too few keys')
    elif k == 1 and m < n:
        ask(ctx, o, [key(j) for j in range(n)][:m + 1], False, 'too many keys')
    elif k == 2 and m > 1:
        ask(ctx, o, [key(who[0])] + [key(j) for j in who[:-1]], False, 'a key twice')
    elif k == 3:
        ks = [key(j) for j in who]
        ks[rng.randrange(m)] = PrivateKey(rng.choice([x for x in (foreign, N - ds[who[0]]) if x not in ds]), NET[rng.choice(NETS)], rng.random() < .5)
        ask(ctx, o, ks, False, 'a foreign key')
    elif k == 4:
        ks = [key(j) for j in who]
        p = rng.randrange(m)
        ks[p] = PrivateKey(ks[p].secret, ks[p].network, not ks[p].compressed)
        ask(ctx, o, ks, False, 'a key with the other compression')


def multisig_again(ctx, rng, i):
    """Scripts that list a key more than once: it may sign as often as it is listed."""
    base = [rng.choice((1, 2, 3, N - 1, 5)) + 10 * j for j in range(1, 3)] + [gen.secret(rng)]
    base = [d % N or 1 for d in base]
    n = rng.randrange(2, 6)
    ds = [rng.choice(base) for _ in range(n)]
    if len(set(ds)) == n:
        ds[0] = ds[-1]
    m = rng.randrange(1, n + 1)
    comp = rng.random() < .7
    o = MultisigInput.create('22' * 32, 1, [PublicKey(ec.gmul(d), NET[rng.choice(NETS)], comp) for d in ds], m)
    key = lambda d: PrivateKey(d, NET[rng.choice(NETS)], comp)
    ask(ctx, o, [key(d) for d in rng.sample(ds, m)], True, '%d of %d keys, some listed more than once' % (m, n))
    who = [rng.choice(base) for _ in range(m)]
    ask(ctx, o, [key(d) for d in who], all(who.count(d) <= ds.count(d) for d in who), 'keys %s of %s' % (who, ds))
    ctx.event('key listed more than once')


SECTIONS = [('outputs', outputs, 4000, 80000), ('multisig-outputs', multisig_outputs, 1600, 24000), ('inputs', inputs, 3000, 40000), ('classes', classes, 12000, 200000), ('address-can-sign', address_can, 480, 8000),
            ('multisig-can-sign', multisig_can, 480, 10000), ('multisig-again', multisig_again, 320, 6000)]
REQUIRE = {'output to a pub address': 1000, 'output to a script address': 1000, 'output to a script': 1000, 'data output': 1000, 'multisig output': 1000, 'too-much-data*': 1000, 'input built': 3000, 'class AddressInput': 300,
           'class ScriptInput': 300, 'class AddressOutput': 300, 'class ScriptOutput': 300, 'class DataOutput': 300, 'can sign': 500, 'key listed more than once': 200, 'cannot sign': 500}
