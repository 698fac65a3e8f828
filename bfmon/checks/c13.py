import copy
from ..lib import *
from bitforge.script import RedeemMultisig
from . import c12

ID = 'C13'
RULE = ('transactions mixing key-hash, multisig, script and foreign inputs with boundary fields, signed in random input and key order; every signed '
        'input is judged by an independent Bitcoin script interpreter; non-trivial: distinct signed transaction')
FLAGS = rs.P2SH | rs.STRICTENC | rs.DERSIG | rs.LOW_S | rs.NULLDUMMY | rs.SIGPUSHONLY | rs.MINIMALDATA


class Plan:
    """One input: how it is created, who signs it, and what it spends."""
    def __init__(self, ctx, rng, kind, pool):
        prev, idx, seq = gen.fill(rng, 32), gen.uint(rng, 32), gen.uint(rng, 32) if rng.random() < .6 else 0xffffffff
        self.kind, self.prev, self.idx, self.seq, self.type = kind, prev, idx, seq, 1
        tid = prev[::-1].hex()
        more = () if seq == 0xffffffff and rng.random() < .5 else (seq,)
        pick = lambda: rng.choice(pool) if rng.random() < .4 else gen.secret(rng)
        if kind == 'address':
            d, comp, net = pick(), rng.random() < .6, NET[rng.choice(NETS)]
            self.keys = [PrivateKey(d, net, comp)]
            h = codec.hash160(ec.sec(ec.gmul(d), comp))
            self.spk = b'\x76\xa9\x14' + h + b'\x88\xac'
            self.obj = ctx.ok('AddressInput', AddressInput.create, tid, idx, Address(h, NET[rng.choice(NETS)]), *more)
        elif kind == 'foreign':
            self.keys = None
            self.obj = Input(tid, idx, Script.from_bytes(c12.script(rng)), *more)
        else:
            comp = rng.random() < .8
            n = rng.choice((1, 2, 2, 3, 3, 4, 5, 15 if comp else 7, rng.randrange(1, 16 if comp else 8)))
            m = rng.randrange(1, n + 1)
            if n > 5:
                m = rng.choice((1, 2, 3, m))
            ds = []
            while len(ds) < n:
                d = pick()
                if ds and rng.random() < .15:
                    d = N - rng.choice(ds)     # the opposite point: same x, another parity
                if d not in ds:
                    ds.append(d)
            if n > 1 and rng.random() < .12:        # the same key at several places
                for _ in range(rng.choice((1, 1, 2))):
                    ds[rng.randrange(n)] = rng.choice(ds)
                ctx.event('repeated key')
            comps = [comp or rng.random() < .5 for _ in ds] if rng.random() < .7 else [comp] * n
            pubs = [PublicKey(ec.gmul(d), NET[rng.choice(NETS)], c) for d, c in zip(ds, comps)]
            redeem = bytes([80 + m]) + b''.join(rs.push(ec.sec(ec.gmul(d), c)) for d, c in zip(ds, comps)) + bytes([80 + n, 174])
            who = sorted(rng.sample(range(n), m))
            if kind == 'multisig':
                if rng.random() < .7:
                    rng.shuffle(who)
                self.obj = ctx.ok('MultisigInput', MultisigInput.create, tid, idx, pubs, m, *more)
            else:
                s = rng.choice((Script.from_bytes, lambda b: RedeemMultisig.create(pubs, m)))(redeem)
                self.obj = ctx.ok('ScriptInput', ScriptInput.create, tid, idx, s, *more)
            self.keys = [PrivateKey(ds[w], NET[rng.choice(NETS)], comps[w]) for w in who]
            self.spk = b'\xa9\x14' + codec.hash160(redeem) + b'\x87'


def kinds(rng, n):
    return [rng.choice(('address', 'address', 'multisig', 'multisig', 'script', 'foreign')) for _ in range(n)]


def judge(ctx, signed, ref_before, p, j, what):
    """The signed transaction differs in input j's script only, and that script spends p's output."""
    b = ctx.ok('to_bytes', signed.to_bytes)
    t = rtx.parse(b)
    for k, (x, y) in enumerate(zip(t.vin, ref_before.vin)):
        if k != j:
            ctx.eq(x.key(), y.key(), '%s: input %d' % (what, k))
        else:
            ctx.eq((x.prev, x.index, x.seq), (y.prev, y.index, y.seq), '%s: the signed input' % what)
    ctx.eq((t.version, t.lock, len(t.vin)), (ref_before.version, ref_before.lock, len(ref_before.vin)), what)
    ctx.eq([o.key() for o in t.vout], [o.key() for o in ref_before.vout], what + ': outputs')
    return t


def run(ctx, rng, plans, vout, lock, version, only=None):
    outs = [Output.create(o.amount, Script.from_bytes(o.script)) for o in vout]
    tx = ctx.ok('Transaction', Transaction, [p.obj for p in plans], outs, lock, version)
    todo = [j for j, p in enumerate(plans) if p.keys and (only is None or j in only)]
    rng.shuffle(todo)
    for j in todo:
        p = plans[j]
        before = tx.to_bytes()
        ref = rtx.parse(before)
        keys = rng.choice((list, list, tuple))(p.keys)
        args = (keys, j) if rng.random() < .8 else (keys, j, 1)
        if len(plans) == 1 and rng.random() < .4:       # the same as ALL when there are no other inputs
            p.type = 0x81
            args = (keys, j, 0x81)
            ctx.event('anyone can pay')
        with steered(rng.sample(SHORT_R, len(p.keys)) if rng.random() < .3 else []):
            new = ctx.ok('sign-' + p.kind, tx.sign, *args)
        ctx.eq(tx.to_bytes(), before, 'the original transaction after signing')
        ctx.eq(list(keys), p.keys, 'the list of keys after signing')
        judge(ctx, new, ref, p, j, 'after signing input %d' % j)
        tx = new
    b = tx.to_bytes()
    t = rtx.parse(b)
    for j in todo:
        ss = t.vin[j].script
        v, err, stack, m = rs.verify(ss, plans[j].spk, t, j, FLAGS)
        ctx.true(v, 'input %d (%s, %d keys) signed as %s does not satisfy %s: %s' % (j, plans[j].kind, len(plans[j].keys), ss.hex(), plans[j].spk.hex(), err))
        for o, d in rs.parse(ss):
            if d and d[0] == 0x30 and ec.bip66(d):
                ctx.true(d[-1] == plans[j].type, 'hash type %d' % d[-1])
                if len(d) < 70:
                    ctx.event('short signature')
        ctx.event('spend accepted')
        ctx.event('signatures', len(plans[j].keys))
    ctx.eq(Transaction.from_bytes(b).to_bytes(), b, 'signed transaction parsed and serialized')
    ctx.seen(b)
    ctx.sample(tx=b, signed=len(todo))


def pool(ctx, rng):
    return ctx.state.setdefault('pool', [1, N - 1, gen.secret(rng), gen.secret(rng)])


def mixed(ctx, rng, i):
    plans = [Plan(ctx, rng, k, pool(ctx, rng)) for k in kinds(rng, rng.choice((1, 1, 2, 2, 3, 4)))]
    if rng.random() < .3:       # the same input again: an equal copy or the very object
        q = copy.copy(rng.choice(plans))
        if rng.random() < .5:
            q.obj = type(q.obj)(*q.obj)
        plans.insert(rng.randrange(len(plans) + 1), q)
        ctx.event('repeated input')
    run(ctx, rng, plans, [c12.rout(rng) for _ in range(rng.choice((1, 1, 2, 3)))], gen.uint(rng, 32) if rng.random() < .6 else 0, gen.uint(rng, 32) if rng.random() < .5 else 1)


def address(ctx, rng, i):
    run(ctx, rng, [Plan(ctx, rng, 'address', pool(ctx, rng)) for _ in range(rng.choice((1, 2)))], [c12.rout(rng)], gen.uint(rng, 32), 1)


def order(ctx, rng, i):
    """All key orders of small multisig inputs."""
    p = Plan(ctx, rng, 'multisig', pool(ctx, rng))
    p.keys.sort(key=lambda k: k.secret)
    if i % 2:
        p.keys.reverse()
    run(ctx, rng, [p], [c12.rout(rng)], 0, 1)


def many(ctx, rng, i):
    """Enough inputs, outputs or script bytes for longer counts in the signed message."""
    n = (252, 253, 260)[i % 3]
    vout = [c12.rout(rng)]
    plans = [Plan(ctx, rng, rng.choice(('address', 'multisig')), pool(ctx, rng)) for _ in range(2)]
    if i // 3 % 3 == 0:
        plans += [Plan(ctx, rng, 'foreign', pool(ctx, rng)) for _ in range(n - 2)]
    elif i // 3 % 3 == 1:
        vout = [c12.rout(rng) for _ in range(n)]
    else:
        vout = [rtx.TxOut(1, c12.script(rng, 65536 if i % 2 else 300))]
    rng.shuffle(plans)
    run(ctx, rng, plans, vout, 0, 1)
    ctx.event('many inputs or outputs')


def refused(ctx, rng, i):
    p = Plan(ctx, rng, 'address', pool(ctx, rng))
    f = Plan(ctx, rng, 'foreign', pool(ctx, rng))
    t = Transaction([p.obj, f.obj], [Output(1, Script())])
    b = t.to_bytes()
    ctx.raises(Input.InvalidSignatureCount, 'bad-count', t.sign, p.keys * rng.choice((0, 2, 3)), 0)
    ctx.raises(Input.UnknownSignatureMethod, 'bad-input', t.sign, p.keys, 1)
    ctx.raises(None, 'bad-index', t.sign, p.keys, rng.choice((2, 3, 100)))
    ctx.eq(t.to_bytes(), b, 'transaction after refused signing')


SECTIONS = [('mixed', mixed, 240, 6000), ('address', address, 160, 3000), ('order', order, 160, 4000), ('many', many, 18, 360), ('refused', refused, 800, 8000)]
REQUIRE = {'spend accepted': 400, 'signatures': 600, 'sign-address': 150, 'sign-multisig': 200, 'sign-script': 30, 'many inputs or outputs': 18, 'repeated input': 30, 'repeated key': 10, 'bad-count*': 300}
