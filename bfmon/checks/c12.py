import json, math, os, time
from ..lib import *

ID = 'C12'
RULE = ('transactions with boundary and random fields, 1..131073 inputs or outputs, scripts of 0..65537 and of 2**24 bytes of any shape, and real transactions; '
        'their truncations and out-of-range fields; non-trivial: distinct serialized transaction, input or output')
ASSUMPTIONS = ['scripts inside parsed transactions are well-formed (no truncated push)']
COUNTS = (252, 253, 254, 255, 256, 300)


def script(rng, exact=None):
    """Script bytes: standard shapes, arbitrary instructions, or an exact length."""
    if exact is not None:
        if exact == 0:
            return b''
        k = rng.randrange(3)
        if k == 0:
            return bytes([rng.choice((97, 0, 172))]) * exact
        n = exact - 1
        while n > 0:
            b = rs.push(gen.fill(rng, n))
            if len(b) <= exact:
                return b + b'\x61' * (exact - len(b))
            n -= 1
        return b'\x61' * exact
    k = rng.randrange(8)
    if k == 0:
        return b''
    if k == 1:
        return b'\x76\xa9\x14' + gen.fill(rng, 20) + b'\x88\xac'
    if k == 2:
        return b'\xa9\x14' + gen.fill(rng, 20) + b'\x87'
    if k == 3:
        return rs.push(gen.fill(rng, 72)) + rs.push(gen.fill(rng, 33))
    if k == 4:
        return b'\0' + rs.push(gen.fill(rng, 72)) * rng.randrange(1, 4) + rs.push(gen.script_bytes(rng, 3) or b'\1')
    if k == 5:
        return b'\x6a' + rs.push(gen.fill(rng, rng.randrange(1, 81)))
    return gen.script_bytes(rng, named=False)


def rin(rng, **k):
    return rtx.TxIn(gen.fill(rng, 32), gen.uint(rng, 32), script(rng, **k), gen.uint(rng, 32) if rng.random() < .6 else 0xffffffff)


def rout(rng, **k):
    return rtx.TxOut(gen.uint(rng, 64), script(rng, **k))


def rtransaction(rng, nin=None, nout=None):
    return rtx.Tx(gen.uint(rng, 32) if rng.random() < .6 else 1, [rin(rng) for _ in range(nin or rng.choice((1, 1, 2, 3, 5)))],
                  [rout(rng) for _ in range(nout or rng.choice((1, 1, 2, 3, 5)))], gen.uint(rng, 32) if rng.random() < .6 else 0)


def mk_in(ctx, rng, t):
    s = Script.from_bytes(t.script)
    a = (t.prev[::-1].hex(), t.index, s, t.seq)
    k = rng.randrange(3)
    if k == 0 and t.seq == 0xffffffff:
        return ctx.ok('Input', Input, *a[:3])
    return ctx.ok('Input', Input, *a) if k < 2 else ctx.ok('Input.create', Input.create, *a)


def mk_out(ctx, rng, o):
    f = rng.choice((Output, Output.create))
    return ctx.ok('Output', f, o.amount, Script.from_bytes(o.script))


def mk_tx(ctx, rng, t):
    ins, outs = [mk_in(ctx, rng, x) for x in t.vin], [mk_out(ctx, rng, x) for x in t.vout]
    seq = rng.choice((list, tuple, iter))
    if (t.lock, t.version) == (0, 1) and rng.random() < .5:
        return ctx.ok('Transaction', Transaction, seq(ins), seq(outs))
    return ctx.ok('Transaction', Transaction, seq(ins), seq(outs), lock_time=t.lock, version=t.version)


def same_in(ctx, a, t):
    ctx.true(isinstance(a, Input), 'an Input')
    ctx.eq((a.tx_id, a.txo_index, a.seq_number), (t.prev[::-1].hex(), t.index, t.seq), 'input fields')
    ctx.eq(a.script.to_bytes(), t.script, 'input script')
    ctx.eq(a.script, Script.from_bytes(t.script), 'input script')


def same_out(ctx, a, o):
    ctx.true(isinstance(a, Output), 'an Output')
    ctx.eq(a.amount, o.amount, 'amount')
    ctx.eq(a.script.to_bytes(), o.script, 'output script')
    ctx.eq(a.script, Script.from_bytes(o.script), 'output script')


def same_tx(ctx, a, t, what):
    ctx.true(isinstance(a, Transaction), what)
    ctx.eq((a.version, a.lock_time, len(a.inputs), len(a.outputs)), (t.version, t.lock, len(t.vin), len(t.vout)), what + ': fields')
    for x, y in zip(a.inputs, t.vin):
        same_in(ctx, x, y)
    for x, y in zip(a.outputs, t.vout):
        same_out(ctx, x, y)
    ctx.eq(ctx.ok('to_bytes', a.to_bytes), t.ser(), what + ': bytes')


def full(ctx, rng, t, deep=True):
    b = t.ser()
    a = mk_tx(ctx, rng, t)
    same_tx(ctx, a, t, 'built')
    ctx.eq(ctx.ok('to_hex', a.to_hex), b.hex(), 'hex')
    d = codec.dsha(b)
    ctx.eq(ctx.ok('get_id', a.get_id), d[::-1].hex(), 'id')
    ctx.eq(bytes(ctx.ok('get_id_bytes', a.get_id_bytes)), d, 'id bytes')
    p = ctx.ok('from_bytes', Transaction.from_bytes, b) if rng.random() < .6 else ctx.ok('from_hex', Transaction.from_hex, b.hex())
    same_tx(ctx, p, t, 'parsed')
    ctx.true(p == a and not p != a, 'parsed transaction equals the built one')
    ctx.eq(ctx.ok('get_id', p.get_id), d[::-1].hex(), 'id of the parsed transaction')
    ctx.seen(b)
    ctx.sample(tx=b, inputs=len(t.vin), outputs=len(t.vout))
    return a, b


def small(ctx, rng, i):
    full(ctx, rng, rtransaction(rng))


def parts(ctx, rng, i):
    t, o = rin(rng), rout(rng)
    a, c = mk_in(ctx, rng, t), mk_out(ctx, rng, o)
    for x, b, cls, same, r in ((a, t.ser(), Input, same_in, t), (c, o.ser(), Output, same_out, o)):
        same(ctx, x, r)
        ctx.eq(ctx.ok('part.to_bytes', x.to_bytes), b, 'bytes')
        ctx.eq(ctx.ok('part.to_hex', x.to_hex), b.hex(), 'hex')
        for f, v in ((cls.from_bytes, b), (cls.from_hex, b.hex())):
            p = ctx.ok('part.parse', f, v)
            same(ctx, p, r)
            ctx.eq(p, x, 'parsed part')
            ctx.eq(ctx.ok('part.to_bytes', p.to_bytes), b, 'bytes of the parsed part')
        for n in {0, 1, len(b) - 1, rng.randrange(len(b)), rng.randrange(len(b))}:
            ctx.raises(None, 'truncated', cls.from_bytes, b[:n])
        ctx.seen(b)


def truncations(ctx, rng, i):
    t = rtransaction(rng, rng.choice((1, 2)), rng.choice((1, 2)))
    b = t.ser()
    p = ctx.ok('from_bytes', Transaction.from_bytes, b)
    same_tx(ctx, p, t, 'parsed')
    ns = range(len(b)) if len(b) < 300 else sorted({rng.randrange(len(b)) for _ in range(200)} | set(range(60)) | set(range(len(b) - 60, len(b))))
    for n in ns:
        ctx.raises(None, 'truncated', Transaction.from_bytes, b[:n])
    ctx.raises(BitforgeError, 'truncated', Transaction.from_bytes, b[:rng.randrange(4)])
    ctx.seen(b)


def counts(ctx, rng, i):
    n = COUNTS[i % len(COUNTS)]
    t = rtransaction(rng, n, rng.choice((1, 2))) if i // len(COUNTS) % 2 else rtransaction(rng, rng.choice((1, 2)), n)
    full(ctx, rng, t)
    ctx.event('many inputs or outputs')


def affordable(ctx, make, n, m):
    """Whether parsing and writing make(n) will take a reasonable time, judged by how the cost grows from make(m) to
    make(4 * m).  Slow is not wrong: what would take minutes is left out, and the evidence says so."""
    cost = []
    for k in (m, 4 * m):
        b, best = make(k), 1e9
        for _ in range(3):
            t = time.process_time()
            Transaction.from_bytes(b).to_bytes()
            best = min(best, time.process_time() - t)
        cost.append(max(best, 1e-6))
    if cost[1] * (cost[1] / cost[0]) ** math.log(n / (4 * m), 4) < 60:
        return True
    ctx.event('left out, slow code')
    return False


def huge(ctx, rng, i):
    """65535 / 65536 inputs or outputs."""
    n = (65536, 65535, 131073)[i // 2 % 3]
    small = rtx.TxIn(gen.fill(rng, 32), 7, b'', 5), rtx.TxOut(9, b'')
    if not affordable(ctx, lambda n: rtx.Tx(1, [small[0]] * (n if i % 2 else 1), [small[1]] * (1 if i % 2 else n), 0).ser(), n, n // 32):
        ctx.event('huge counts')
        return
    s = rtx.TxIn(gen.fill(rng, 32), gen.uint(rng, 32), b'', 5), rtx.TxOut(gen.uint(rng, 64), b'')
    t = rtx.Tx(1, [s[0]] * (n if i % 2 else 1), [s[1]] * (1 if i % 2 else n), 0)
    b = t.ser()
    x, y = mk_in(ctx, rng, s[0]), mk_out(ctx, rng, s[1])
    a = ctx.ok('Transaction', Transaction, [x] * len(t.vin), [y] * len(t.vout))
    ctx.eq(ctx.ok('to_bytes', a.to_bytes), b, 'bytes of %d inputs/outputs' % n)
    ctx.eq(ctx.ok('get_id', a.get_id), t.txid(), 'id of %d inputs/outputs' % n)
    p = ctx.ok('from_bytes', Transaction.from_bytes, b)
    ctx.eq((len(p.inputs), len(p.outputs)), (len(t.vin), len(t.vout)), 'parsed counts')
    ctx.true(p == a, 'parsed')
    ctx.eq(ctx.ok('to_bytes', p.to_bytes), b, 'parsed and serialized')
    ctx.event('huge counts')


def vast(ctx, rng, i):
    """A script of about 2**24 bytes: lengths that need all four bytes of their field."""
    n = 2**24 + (0, 1, 300)[i % 3]
    d = gen.fill(rng, 64)
    s = b'\x4e' + n.to_bytes(4, 'little') + (d * (n // 64 + 1))[:n]
    t = rtx.Tx(1, [rtx.TxIn(gen.fill(rng, 32), 0, s if i % 2 else b'', 5)], [rtx.TxOut(7, b'' if i % 2 else s)], 0)
    b = t.ser()
    if not affordable(ctx, lambda n: rtx.Tx(1, [rtx.TxIn(bytes(32), 0, b'\x4e' + n.to_bytes(4, 'little') + bytes(n), 5)], [rtx.TxOut(7, b'')], 0).ser(), n, 1 << 18):
        ctx.event('vast script')
        return
    a = ctx.ok('from_bytes', Transaction.from_bytes, b)
    got = (a.inputs[0].script if i % 2 else a.outputs[0].script).instructions
    ctx.eq([(x.opcode.number, len(x.data)) for x in got], [(78, n)], 'script of %d bytes' % len(s))
    ctx.true(ctx.ok('to_bytes', a.to_bytes) == b, 'a script of %d bytes serializes as it was' % len(s))
    ctx.eq(ctx.ok('get_id', a.get_id), t.txid(), 'id')
    ctx.event('vast script')


LENGTHS = (0, 1, 75, 76, 252, 253, 254, 255, 256, 519, 520, 521, 9999, 10000, 10001, 65534, 65535, 65536, 65537)


def lengths(ctx, rng, i):
    n = LENGTHS[i % len(LENGTHS)]
    t = rtransaction(rng, 1, 1)
    if i // len(LENGTHS) % 2:
        t.vin[0].script = script(rng, n)
    else:
        t.vout[0].script = script(rng, n)
    assert n in (len(t.vin[0].script), len(t.vout[0].script))
    full(ctx, rng, t)
    ctx.event('script length')


def fields(ctx, rng, i):
    """Out-of-range fields never serialize; the constructor refuses what it must."""
    t = rtransaction(rng, 1, 1)
    a = mk_tx(ctx, rng, t)
    x, y = a.inputs[0], a.outputs[0]
    over = lambda bits: rng.choice((1 << bits, (1 << bits) + gen.uint(rng, bits), 1 << bits + 8, -1, -gen.uint(rng, bits) - 1))
    ctx.raises(None, 'overflow', lambda v: Input(x.tx_id, v, x.script, x.seq_number).to_bytes(), over(32))
    ctx.raises(None, 'overflow', lambda v: Input(x.tx_id, x.txo_index, x.script, v).to_bytes(), over(32))
    ctx.raises(None, 'overflow', lambda v: Output(v, y.script).to_bytes(), over(64))
    ctx.raises(None, 'overflow', lambda v: Transaction([x], [y], 0, v).to_bytes(), over(32))
    ctx.raises(Transaction.InvalidLockTime, 'bad-lock', Transaction, [x], [y], over(32))
    for lt in (0, 1, 499999999, 500000000, 2**31, 2**32 - 1):
        ctx.eq(ctx.ok('Transaction', Transaction, [x], [y], lt).lock_time, lt, 'lock time')
    ctx.raises(Transaction.NoInputs, 'bad-inputs', Transaction, rng.choice(([], (), iter([]))), [y])
    ctx.raises(Transaction.NoOutputs, 'bad-outputs', Transaction, [x], rng.choice(([], (), iter([]))))
    ctx.raises(Transaction.NotAnInput, 'bad-inputs', Transaction, [x] * rng.randrange(3) + [rng.choice((y, None, 'x', 5, b'', tuple(x), t.vin[0]))], [y])
    ctx.raises(Transaction.NotAnOutput, 'bad-outputs', Transaction, [x], [y] * rng.randrange(3) + [rng.choice((x, None, 'x', 5, b'', tuple(y), t.vout[0]))])
    for bad in ('zz', '0', 'é', '0x00'):
        ctx.raises(BitforgeError, 'bad-hex', Transaction.from_hex, bad)
    ctx.seen('f', i)
    # inputs or outputs missing on the wire
    ctx.raises(None, 'truncated', Transaction.from_bytes, rtx.Tx(1, [], t.vout, 0).ser())
    ctx.raises(None, 'truncated', Transaction.from_bytes, rtx.Tx(1, t.vin, [], 0).ser())


def distinct(ctx, rng, i):
    """A change of any one field changes object, bytes and id."""
    t = rtransaction(rng, 2, 2)
    a = mk_tx(ctx, rng, t)
    u = rtx.parse(t.ser())
    k = rng.randrange(9)
    x, o = rng.choice(u.vin), rng.choice(u.vout)
    if k == 0:
        u.version ^= 1 << rng.randrange(32)
    elif k == 1:
        u.lock ^= 1 << rng.randrange(32)
    elif k == 2:
        x.prev = bytes(c ^ (1 << rng.randrange(8) if j == 7 else 0) for j, c in enumerate(x.prev))
    elif k == 3:
        x.index ^= 1 << rng.randrange(32)
    elif k == 4:
        x.seq ^= 1 << rng.randrange(32)
    elif k == 5:
        o.amount ^= 1 << rng.randrange(64)
    elif k == 6:
        x.script += b'\x61'
    elif k == 8:        # another amount with the same Python hash
        o.amount = o.amount % 2**62
        a, o.amount = mk_tx(ctx, rng, u), o.amount + (2**61 - 1) * rng.choice((1, 2, 6))
        ctx.true(a.get_id() == ctx.ok('from_bytes', Transaction.from_bytes, a.to_bytes()).get_id(), 'id')
    else:
        o.script += b'\x61'
    b = mk_tx(ctx, rng, u)
    ctx.true(a != b and not a == b, 'transactions differing in one field compare equal')
    ctx.true(a.to_bytes() != b.to_bytes() and a.get_id() != b.get_id(), 'bytes or id ignore a field')
    ctx.eq((b.to_bytes(), b.get_id()), (u.ser(), u.txid()), 'bytes and id after a change')
    ctx.event('one field changed')


def _real():
    out = []
    for f in ('tx_valid.json', 'tx_invalid.json'):
        for v in json.load(open(os.path.join(gen.VERIF, 'data', f))):
            if isinstance(v[0], list):
                try:
                    t = rtx.parse(bytes.fromhex(v[1]))
                except Exception:
                    continue
                if t.vin and t.vout and all(rs.parse(x.script) is not None for x in t.vin + t.vout):
                    out.append(t)
    return out


REAL = _real()


def real(ctx, rng, i):
    full(ctx, rng, REAL[i % len(REAL)])
    ctx.event('real transaction')


SECTIONS = [('small', small, 8000, 160000), ('parts', parts, 8000, 160000), ('truncations', truncations, 600, 12000), ('counts', counts, 24, 480), ('huge', huge, 6, 12), ('vast', vast, 2, 6),
            ('lengths', lengths, 152, 3000), ('fields', fields, 4000, 80000), ('distinct', distinct, 6000, 120000), ('real', real, 200, 400)]
REQUIRE = {'to_bytes': 8000, 'from_bytes': 2000, 'from_hex': 1000, 'truncated*': 20000, 'part.parse': 8000, 'overflow*': 4000, 'many inputs or outputs': 12, 'huge counts': 6, 'vast script': 2,
           'script length': 76, 'one field changed': 2000, 'real transaction': 60, 'bad-lock*': 1000}
