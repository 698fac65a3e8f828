from ..progs import *

ID = 'C16'
RULE = ('pay-to-script-hash spends with redeem scripts grown to succeed or fail on the pushed arguments, wrong hashes, non-push spending scripts, malformed '
        'and oversized redeem scripts, near-miss output forms, with and without the flag; verdict and stack against the reference machine; non-trivial: '
        'distinct (scripts, flags)')


def out(h):
    return b'\xa9\x14' + h + b'\x87'


def redeem_for(rng, args, fl, t=None, nin=0):
    return rs.serialize(grow(rng, final_stack(args, fl), rng.randrange(0, 9), fl, t, nin, t.lock if t else 0))


def case(ctx, rng):
    fl = flags(rng) | (rs.P2SH if rng.random() < .85 else 0)
    btx, t, nin = transaction(rng) if rng.random() < .5 else (None, None, 0)
    args = [element(rng) for _ in range(rng.randrange(4))]
    redeem = redeem_for(rng, args, fl, t, nin)
    return fl, btx, t, nin, args, redeem


def judge(ctx, sig, spk, btx, t, nin, fl, what):
    if rs.parse(sig) is None or rs.parse(spk) is None:
        return
    r = differ(ctx, sig, spk, btx, t, nin, fl)
    if r is not None:
        ctx.event('%s: %s' % (what, r))
    return r


def spends(ctx, rng, i):
    fl, btx, t, nin, args, redeem = case(ctx, rng)
    sig = rs.serialize(args + [push_any(rng, redeem) if rng.random() < .3 else push_min(redeem)])
    judge(ctx, sig, out(codec.hash160(redeem)), btx, t, nin, fl, 'spend')
    judge(ctx, sig, out(codec.hash160(redeem)), btx, t, nin, fl ^ rs.P2SH, 'spend, other flag')
    ctx.sample(sig=sig, redeem=redeem, flags='%#x' % fl)


def wrong(ctx, rng, i):
    fl, btx, t, nin, args, redeem = case(ctx, rng)
    sig = rs.serialize(args + [push_min(redeem)])
    h = codec.hash160(redeem)
    k = rng.randrange(7)
    if k == 0:
        h = gen.mutate(rng, h)[:20].ljust(20, b'\0')
    elif k == 1:
        h = codec.ripemd160(redeem)
    elif k == 2:
        h = codec.sha256(redeem)[:20]
    elif k == 3:        # the redeem script is not the last push
        sig = rs.serialize([push_min(redeem)] + args)
    elif k == 4:
        sig = rs.serialize(args)
    elif k == 5:
        sig = b''
    else:
        sig = rs.serialize(args + [push_min(redeem), push_min(redeem)])
    judge(ctx, sig, out(h), btx, t, nin, fl, 'wrong')


def pushonly(ctx, rng, i):
    """The spending script does something else than push, to the same effect."""
    fl, btx, t, nin, args, redeem = case(ctx, rng)
    fl &= ~rs.SIGPUSHONLY if rng.random() < .8 else -1
    extra = rng.choice(([(97, None)], [(81, None), (117, None)], [(118, None), (117, None)], [(176, None)], [(0, None), (99, None), (104, None)], [(80, None)], [(79, None)],
                        [(81, None)], [(107, None), (108, None)], [(171, None)], [(130, None), (117, None)], [(0, None), (99, None), (255, None), (104, None)]))
    ops = args + [push_min(redeem)]
    p = rng.randrange(len(ops) + 1)
    ops[p:p] = extra
    judge(ctx, rs.serialize(ops), out(codec.hash160(redeem)), btx, t, nin, fl, 'not push-only')


def forms(ctx, rng, i):
    """Outputs that look like, but are not, the BIP16 form: only the plain scripts decide."""
    fl, btx, t, nin, args, redeem = case(ctx, rng)
    redeem = rng.choice((redeem, b'\0', b'\x6a', b'\x51', b'\xff'))
    h = codec.hash160(redeem)
    spk = rng.choice((b'\xa9\x4c\x14' + h + b'\x87', b'\xa9\x4d\x14\0' + h + b'\x87', b'\xa9\x14' + h + b'\x88\x51', b'\x61\xa9\x14' + h + b'\x87', b'\xa9\x14' + h + b'\x87\x61',
                      b'\xaa\x20' + codec.dsha(redeem) + b'\x87', b'\xa8\x20' + codec.sha256(redeem) + b'\x87', b'\xa6\x14' + codec.ripemd160(redeem) + b'\x87',
                      b'\xa9\x14' + h + b'\x87', b'\xa9\x14' + h + b'\x9c', b'\x76\xa9\x14' + h + b'\x87', b'\xa9\x14' + h + b'\x87\x91', b'\xa9\x13' + h[:19] + b'\x87',
                      b'\xa9\x15' + h + b'\0\x87', b'\xa7\x14' + codec.sha1(redeem) + b'\x87', b'\xa9\x4e\x14\0\0\0' + h + b'\x87'))
    judge(ctx, rs.serialize(args + [push_min(redeem)]), spk, btx, t, nin, fl, 'other form')


def malformed(ctx, rng, i):
    """Redeem scripts that are truncated, empty, too long, disabled, unbalanced or themselves pay-to-script-hash."""
    fl, btx, t, nin, args, redeem = case(ctx, rng)
    fl |= rs.P2SH if rng.random() < .9 else 0
    k = rng.randrange(10)
    if k == 0:
        redeem = redeem + bytes([rng.randrange(1, 79)]) + b'\1' * rng.randrange(3)
    elif k == 1:
        redeem = b''
    elif k == 2:
        redeem = b'\x51' * rng.choice((519, 520, 521))
    elif k == 3:
        inner = b'\0'
        redeem = out(codec.hash160(inner))
        args = [push_min(inner)]
    elif k == 4:
        redeem = rng.choice((b'\x63\x51', b'\x51\x63', b'\x68', b'\x67', b'\x51\x63\x67'))
    elif k == 5:
        redeem = rng.randbytes(rng.randrange(1, 40))
    elif k == 6:
        redeem = rng.choice((b'\0', b'\x80', b'\x01\x80', b'\x01\0', b'\x02\0\x80', b'\x75', b'\x61', b'\x6c', b'\x74', b'\x87', b'\x02\0\1', b'\x74\x87'))
    elif k == 7:
        redeem = b'\x51' + b'\x61' * rng.choice((200, 201, 202))
    elif k == 8:
        redeem = rs.serialize([(1, bytes([rng.choice((1, 16, 0x81, 17))]))] + [(81, None)] * rng.randrange(2))
    else:
        redeem = b'\x6b' * rng.randrange(1, 3) + b'\x51'
    judge(ctx, rs.serialize(args + [push_min(redeem)]), out(codec.hash160(redeem)), btx, t, nin, fl, 'malformed')
    if i < 8:      # the listed finding, seen through a redeem script
        redeem = b'\x02\0\1'
        judge(ctx, rs.push(redeem), out(codec.hash160(redeem)), None, None, 0, rs.P2SH, 'malformed')


def arguments(ctx, rng, i):
    """The redeem script sees exactly the remaining arguments."""
    n = rng.randrange(6)
    args = [(1, bytes([0x21 + j])) for j in range(n)]
    m = rng.choice((n, n, n, n + 1, max(0, n - 1)))
    redeem = b'\x74' + rs.serialize([push_min(codec.num_enc(m))]) + b'\x9d'       # DEPTH m NUMEQUALVERIFY
    for a in reversed(args):
        redeem += rs.ser_op(*a) + b'\x88'
    redeem += b'\x51'
    judge(ctx, rs.serialize(args + [push_min(redeem)]), out(codec.hash160(redeem)), None, None, 0, rng.choice((rs.P2SH, flags(rng) | rs.P2SH, 0)), 'arguments')


def copies(ctx, rng, i):
    """Arguments equal to the redeem script, its hash or each other: position decides, not content."""
    n = rng.randrange(1, 6)
    m = rng.choice((n, n, n, n + 1, n - 1))
    head = b'\x74' + rs.serialize([push_min(codec.num_enc(m))]) + b'\x9d' if rng.random() < .8 else b''       # DEPTH m NUMEQUALVERIFY
    body = rng.choice((b'', b'\x75', b'\x76\x75', b'\x6d', b'\x7b\x75', b'\x78\x87', b'\xa9', b'\x82\x77'))
    redeem = head + body + rng.choice((b'\x51', b'', b'\x74', b'\x51' + b'\x77' * rng.randrange(3), b'\x61'))
    if not redeem:
        redeem = b'\x61'
    h = codec.hash160(redeem)
    pool = [redeem, redeem, h, out(h), b'', b'\1', redeem[:-1], redeem + b'\x61', codec.hash160(h)]
    args = [push_min(rng.choice(pool)) for _ in range(n)]
    judge(ctx, rs.serialize(args + [push_min(redeem)]), out(h), None, None, 0, rng.choice((rs.P2SH, rs.P2SH, flags(rng) | rs.P2SH, 0)), 'copies')


SECTIONS = [('spends', spends, 16000, 300000), ('wrong', wrong, 10000, 200000), ('pushonly', pushonly, 10000, 200000), ('forms', forms, 10000, 200000),
            ('malformed', malformed, 12000, 240000), ('arguments', arguments, 8000, 100000), ('copies', copies, 8000, 100000)]
REQUIRE = {'spend: True': 1500, 'spend: False': 1500, 'spend, other flag: True': 500, 'wrong: False': 1500, 'not push-only: False': 1500, 'not push-only: True': 100, 'other form: True': 500,
           'malformed: True': 300, 'malformed: False': 1500, 'arguments: True': 300, 'copies: True': 1000, 'copies: False': 500}
