from ..progs import *

ID = 'C15'
RULE = ('script pairs from hostile generators (random bytes, mutated programs, signature opcodes with valid, forged and malformed signatures of real '
        'transactions) under any flags, and programs placed exactly at, one below and one above each limit; non-trivial: distinct (scripts, flags)')
ASSUMPTIONS = ['F-CASTBOOL (KNOWN_FINDINGS of C14) is tolerated: a true verdict must be one the reference machine gives with or without that defect']


def sound(ctx, sig, pub, btx=None, t=None, nin=0, fl=0):
    """Returns a verdict without raising, says why when false, and true only where Bitcoin's rules say true."""
    v, err, _ = observe(ctx, sig, pub, btx, nin, fl)
    ctx.event('verdict %s' % v)
    rv, rerr, _, m = rs.verify(sig, pub, t, nin, fl)
    if v and not rv:
        if not rs.verify(sig, pub, t, nin, fl, castbool=rs.cast_to_bool_known_defect)[0]:
            ctx.fail('verify(%s, %s, flags=%#x) accepted what Bitcoin refuses (%s)' % (sig.hex(), pub.hex(), fl, rerr))
    if m.sig_ops_executed:
        ctx.event('signature judged: reference says %s' % rv)
    ctx.seen(sig, pub, fl)
    return v


def parsed(rng, top=200):
    """Random bytes cut down to a well-formed script."""
    b = rng.randbytes(rng.randrange(top))
    out, pc = b'', 0
    while pc < len(b):
        r = rs.get_op(b, pc)
        if r is None:
            break
        pc = r[2]
    return b[:pc]


def anything(ctx, rng, i):
    btx, t, nin = transaction(rng) if rng.random() < .6 else (None, None, 0)
    a = parsed(rng) if rng.random() < .5 else rs.serialize(gen.ops(rng, rng.randrange(20), named=False))
    b = parsed(rng) if rng.random() < .5 else rs.serialize(gen.ops(rng, rng.randrange(20), named=False))
    sound(ctx, a, b, btx, t, nin, flags(rng) if rng.random() < .9 else gen.uint(rng, 32) & ALL_FLAGS)
    ctx.sample(sig=a, pub=b)


def deep(ctx, rng, i):
    fl = flags(rng)
    btx, t, nin = transaction(rng)
    sig = [element(rng) for _ in range(rng.randrange(6))]
    pub = grow(rng, final_stack(sig, fl), rng.randrange(1, 12), fl, t, nin, t.lock, sigs=True, bad=.04)
    sound(ctx, rs.serialize(sig), rs.serialize(pub), btx, t, nin, fl)


def spend(rng, t, nin, kind, d, comp, n=2, m=1):
    """A correct spend of a standard output: (sig script, output script, redeem or None)."""
    q = ec.sec(ec.gmul(d), comp)

    def sg(dd, code, ht=1):
        z = int.from_bytes(rtx.sighash(t, code, nin, ht), 'big')
        r, s = ec.sign_k(dd, z, rng.randrange(1, N))
        return ec.der(r, min(s, N - s)) + bytes([ht])
    if kind == 'p2pkh':
        spk = b'\x76\xa9\x14' + codec.hash160(q) + b'\x88\xac'
        return rs.push(sg(d, spk)) + rs.push(q), spk
    if kind == 'p2pk':
        spk = rs.push(q) + b'\xac'
        return rs.push(sg(d, spk)), spk
    ds = [d] + [rng.randrange(1, N) for _ in range(n - 1)]
    spk = bytes([80 + m]) + b''.join(rs.push(ec.sec(ec.gmul(x), comp)) for x in ds) + bytes([80 + n, 174])
    if kind == 'multisig':
        return b'\0' + b''.join(rs.push(sg(x, spk)) for x in ds[:m]), spk
    redeem = spk
    return b'\0' + b''.join(rs.push(sg(x, redeem)) for x in ds[:m]) + rs.push(redeem), b'\xa9\x14' + codec.hash160(redeem) + b'\x87'


def signatures(ctx, rng, i):
    """Valid spends and forgeries of them: nothing invalid may be accepted, nothing may raise."""
    btx, t, nin = transaction(rng)
    kind = ('p2pkh', 'p2pk', 'multisig', 'p2sh')[i % 4]
    n = rng.randrange(1, 4)
    sig, spk = spend(rng, t, nin, kind, gen.secret(rng), rng.random() < .7, n, rng.randrange(1, n + 1))
    k = rng.randrange(6)
    if k == 0:
        ctx.event('valid spend')
    elif k == 1:        # another transaction
        btx, t, nin = transaction(rng)
    elif k == 2:
        ops = rs.parse(sig)
        p = rng.randrange(len(ops))
        if ops[p][1]:
            o, d = ops[p]
            d = bytearray(d)
            d[rng.randrange(len(d))] ^= 1 << rng.randrange(8)
            ops[p] = (o, bytes(d))
        sig = rs.serialize(ops)
    elif k == 3:
        ops = rs.parse(sig)
        ops[rng.randrange(len(ops))] = element(rng)
        sig = rs.serialize(ops)
    elif k == 4:
        ops = [o for o in rs.parse(sig)]
        rng.shuffle(ops)
        sig = rs.serialize(ops)
    else:
        sig = rs.serialize([(0, None)] * rng.randrange(1, 5) + rs.parse(sig)[rng.randrange(3):])
    fl = flags(rng)
    sound(ctx, sig, spk, btx, t, nin, fl)
    # negated: a refused signature must not be turned into acceptance by an error path
    sound(ctx, sig, spk + rng.choice((b'\x91', b'\x51', b'\x63\x51\x67\x51\x68', b'\x75\x51')), btx, t, nin, fl)


def limits(ctx, rng, i):
    """Programs exactly at each limit (compared with the reference machine, which counts for itself)."""
    kind = ('ops', 'size', 'push', 'stack', 'altstack', 'keys', 'ops-skipped', 'stack-moment', 'p2sh-ops', 'push-skipped', 'stack-sig', 'ops-reserved')[i % 12]
    j = i // 12
    delta = j % 3 - 1
    where = j // 3 % 2           # in which of the two scripts
    fl = rng.choice((0, rs.P2SH, rs.CLTV))
    pre = rng.choice((b'', b'', b'\x51', b'\x51\x61\x61\x61', b'\x02ab\x00'))      # the other script has its own counts
    if kind == 'ops':
        o = rng.choice((97, 176, 185, 116, 118))
        body = [(81, None)] + [(o, None)] * (201 + delta)
    elif kind == 'ops-skipped':
        body = [(0, None), (99, None)] + [(rng.choice((97, 118, 172, 255, 186)), None)] * (199 + delta) + [(104, None), (81, None)]
    elif kind == 'ops-reserved':  # OP_RESERVED and pushes do not count
        body = [(81, None), (117, None)] * 5 + [(81, None)] * 300 + [(0, None), (99, None), (80, None), (104, None)] + [(97, None)] * (194 + delta) + [(81, None)]
    elif kind == 'size':
        total = 10000 + delta
        b = b''
        while total - len(b) > 600:
            b += rs.ser_op(77, bytes(517)) + b'\x75' if where else rs.ser_op(77, bytes(517))
        rest = total - len(b)
        b += b'\x51' * rest
        ctx.true(len(b) == total, 'generator')
        r = differ(ctx, b if not where else pre, b'\x51' if not where else b, None, None, 0, fl)
        ctx.event('limit %s %+d: %s' % (kind, delta, r))
        return
    elif kind == 'push':
        body = [(rng.choice((77, 78)), b'\1' + gen.fill(rng, 519 + delta))]
    elif kind == 'push-skipped':
        body = [(0, None), (99, None), (77, gen.fill(rng, 520 + delta)), (104, None), (81, None)]
    elif kind == 'stack':
        body = [(81, None)] * (1000 + delta)
    elif kind == 'stack-sig':     # elements left by the first script count in the second
        a = rng.randrange(1, 999)
        r = differ(ctx, b'\x51' * a, b'\x51' * (1000 + delta - a), None, None, 0, fl)
        ctx.event('limit %s %+d: %s' % (kind, delta, r))
        return
    elif kind == 'altstack':
        a = rng.randrange(1, 190)
        body = [(81, None), (107, None)] * a + [(81, None)] * (1000 + delta - a)
    elif kind == 'stack-moment':  # over the limit only for a moment
        o, d = rng.choice((((110, None), 2), ((111, None), 3), ((112, None), 2), ((118, None), 1)))
        body = [(81, None)] * (1000 + delta - d) + [o] + [(109, None)] * 3
    elif kind == 'keys':
        n = rng.choice((20, 19, 1, 3, 0, 0, 2, rng.randrange(21)))
        end = rng.choice(([(174, None), (117, None)], [(175, None)]))
        body = ([(0, None), (0, None)] + [(81, None)] * n + [push_min(codec.num_enc(n))] + end)
        c = rng.choice((201 // (n + len(end)), rng.randrange(1, 201 // (n + len(end)) + 1)))
        used = c * (n + len(end))
        body = body * c + [(97, None)] * (201 + delta - used) + [(81, None)]
    else:                         # p2sh-ops: every script has its own count
        redeem = rs.serialize([(81, None)] + [(97, None)] * (201 + delta))
        sig = rs.serialize([push_min(redeem)])
        spk = b'\xa9\x14' + codec.hash160(redeem) + b'\x87'
        r = differ(ctx, sig, spk, None, None, 0, rs.P2SH)
        ctx.event('limit %s %+d: %s' % (kind, delta, r))
        return
    b = rs.serialize(body)
    r = differ(ctx, b, b'\x61', None, None, 0, fl) if where == 0 else differ(ctx, b'' if 'stack' in kind else pre, b, None, None, 0, fl)
    ctx.event('limit %s %+d: %s' % (kind, delta, r))


def broken_tx(ctx, rng, i):
    """Index beyond the transaction's inputs, or no transaction at all: still a verdict."""
    btx, t, nin = transaction(rng)
    nin = rng.choice((len(t.vin), len(t.vin) + 1, 1000))
    ops = [element(rng), (177, None), (81, None)] if rng.random() < .5 else grow(rng, [], 5, 0, sigs=True)
    a, b = Script.from_bytes(b''), Script.from_bytes(rs.serialize(ops))
    it = Interpreter()
    v = ctx.ok('verify', it.verify, a, b, btx, nin, flags(rng) | rs.CLTV)
    ctx.true(v is True or v is False and it.errstr, 'verdict %r' % (v,))
    sound(ctx, b'', rs.serialize(ops), None, None, 0, flags(rng))


def extremes(ctx, rng, i):
    """Large and repetitive scripts end in a verdict."""
    o = rng.choice((0, 79, 81, 96, 97, 99, 100, 103, 104, 107, 116, 118, 121, 130, 169, 172, 174, 176, 255, rng.randrange(79, 256)))
    n = rng.choice((200, 201, 202, 1000, 9999, 10000, 10001, 20000))
    b = rs.serialize([(81, None)] * rng.randrange(5)) + bytes([o]) * n
    fl = flags(rng)
    if rng.random() < .5:
        sound(ctx, b, b'\x51', None, None, 0, fl)
    else:
        sound(ctx, b'\x51', b, None, None, 0, fl)


SECTIONS = [('anything', anything, 16000, 320000), ('deep', deep, 10000, 200000), ('signatures', signatures, 6000, 120000), ('limits', limits, 2880, 28800),
            ('broken_tx', broken_tx, 3000, 60000), ('extremes', extremes, 800, 12000)]
REQUIRE = {'verify': 20000, 'verdict True': 3000, 'verdict False': 8000, 'signature judged*': 3000, 'signature judged: reference says True': 300, 'valid spend': 300}
for _k, _m in (('ops', -1), ('size', -1), ('push', -1), ('stack', -1), ('altstack', -1), ('keys', -1), ('p2sh-ops', 0), ('stack-sig', 0), ('ops-skipped', 0), ('push-skipped', 0),
               ('ops', 0), ('size', 0), ('push', 0), ('stack', 0), ('altstack', 0), ('keys', 0)):
    REQUIRE['limit %s %+d: True' % (_k, _m)] = 5
