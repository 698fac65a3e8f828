"""Script programs for the interpreter checks: grown instruction by instruction so that most of them run deep, and the
differential judge against the reference machine."""
from .lib import *
from bitforge.script.interpreter import Interpreter

FLAG_BITS = (rs.P2SH, rs.STRICTENC, rs.DERSIG, rs.LOW_S, rs.NULLDUMMY, rs.SIGPUSHONLY, rs.MINIMALDATA, rs.DISCOURAGE_NOPS, rs.CLTV)
ALL_FLAGS = sum(FLAG_BITS)
NUMS = sorted({s * v for s in (1, -1) for v in (0, 1, 2, 3, 5, 15, 16, 17, 75, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 2**23 - 1, 2**23, 2**24,
               2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 499999999, 500000000, 500000001, 2**39 - 1, 2**39)})
SMALL = [n for n in NUMS if abs(n) < 2**31]


def flags(rng):
    k = rng.randrange(6)
    if k == 0:
        return 0
    if k == 1:
        return ALL_FLAGS
    if k == 2:
        return rng.choice(FLAG_BITS)
    return sum(b for b in FLAG_BITS if rng.random() < .5)


def push_min(d):
    """The minimal push of d (as the MINIMALDATA rule defines it)."""
    if d == b'':
        return (0, None)
    if len(d) == 1 and 1 <= d[0] <= 16:
        return (80 + d[0], None)
    if d == b'\x81':
        return (79, None)
    n = len(d)
    return (n if n <= 75 else 76 if n <= 255 else 77 if n <= 65535 else 78, d)


def push_any(rng, d):
    if rng.random() < .75:
        return push_min(d)
    n = len(d)
    c = [(78, d)]
    if n <= 65535:
        c.append((77, d))
    if n <= 255:
        c.append((76, d))
    if 1 <= n <= 75:
        c += [(n, d)] * 3
    return rng.choice(c)


def number(rng, pool=SMALL):
    k = rng.randrange(8)
    if k < 3:
        v = rng.choice(pool)
    elif k < 6:
        v = rng.randrange(-3, 20)
    elif k == 6:
        v = rng.choice((1, -1)) * gen.uint(rng, 31)
    else:
        v = rng.choice((1, -1)) * rng.choice(gen.DICT) % 2**31
    d = codec.num_enc(v)
    if rng.random() < .08:        # a longer encoding of the same number
        d = pad(d, rng.randrange(1, 4))
    return push_any(rng, d)


def pad(d, n):
    d = bytearray(d)
    neg = d and d[-1] & 0x80
    if d:
        d[-1] &= 0x7f
    d += bytes(n)
    if neg:
        d[-1] |= 0x80
    return bytes(d)


def element(rng):
    k = rng.randrange(10)
    if k < 4:
        return number(rng)
    if k == 4:
        return push_any(rng, rng.choice((b'', b'\x80', b'\0', b'\0\0', b'\0\x80', b'\1', b'\x81', b'\xff', b'\x01\0', b'\x80\0', b'\0\1')))
    if k == 5:
        return push_any(rng, b'\1' + gen.fill(rng, rng.choice((4, 5, 19, 31, 74, 75, 76, 254, 255, 519, 520))))
    d = rng.randbytes(rng.choice((1, 2, 3, 4, 5, 8, 20, 32)))
    if d[0] == 0:
        d = b'\1' + d[1:]
    return push_any(rng, d)


UNARY = (139, 140, 143, 144, 145, 146)
BINARY = (147, 148, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164)
HASHES = (166, 167, 168, 169, 170)
STACKOPS = (107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 130)
NOPS = (97, 171, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185)
BAD = (80, 98, 101, 102, 106, 126, 127, 128, 129, 131, 132, 133, 134, 137, 138, 141, 142, 149, 150, 151, 152, 153, 186, 200, 252, 253, 254, 255)
SIGOPS = (172, 173, 174, 175)


def snippet(rng, lock=0, sigs=False, bad=.02):
    r = rng.random()
    if r < bad:
        return [(rng.choice(BAD), None)]
    if sigs and r < .15:
        return [element(rng), element(rng), (rng.choice((172, 173)), None)] if rng.random() < .5 else \
            [(0, None), element(rng), (81, None), element(rng), (81, None), (rng.choice((174, 175)), None)]
    k = rng.randrange(22)
    if k == 0:
        return [number(rng), (rng.choice(UNARY), None)]
    if k <= 2:
        return [number(rng), number(rng), (rng.choice(BINARY), None)]
    if k == 3:
        return [number(rng), number(rng), number(rng), (165, None)]
    if k == 4:
        return [(118, None), (rng.choice((135, 136)), None)]
    if k == 5:
        e = element(rng)
        return [e, e if rng.random() < .6 else element(rng), (rng.choice((135, 136, 135, 156)), None)]
    if k == 6:
        return [element(rng), (rng.choice(HASHES), None)]
    if k <= 11:
        return [(rng.choice(STACKOPS), None)]
    if k == 12:
        return [(80 + rng.randrange(1, 5), None) if rng.random() < .8 else number(rng), (rng.choice((121, 122)), None)]
    if k == 13:
        return [element(rng), (rng.choice((99, 100)), None)]
    if k == 14:
        return [(rng.choice((103, 104)), None)]
    if k == 15:
        return [(rng.choice(NOPS), None)]
    if k == 16:
        v = rng.choice((lock, lock + 1, max(0, lock - 1), 0, -1, 499999999, 500000000, 2**31, 2**32 - 1, 2**39 - 1, gen.uint(rng, 39)))
        return [push_any(rng, codec.num_enc(v)), (177, None)] + ([(117, None)] if rng.random() < .5 else [])
    if k == 17:
        return [element(rng), (105, None)]
    if k == 18:       # multisig with no signatures required
        n = rng.choice((0, 1, 2, 3, 16, 20, 21) if rng.random() < .3 else (0, 1, 2, 3))
        return [(0, None) if rng.random() < .8 else element(rng), (0, None)] + [element(rng) for _ in range(n)] + [push_min(codec.num_enc(n)), (rng.choice((174, 174, 175)), None)]
    if k == 19:
        return [(rng.choice(UNARY + BINARY + HASHES + (165, 99, 100, 103, 104, 105, 135, 136)), None)]
    return [element(rng) for _ in range(rng.randrange(1, 4))]


def grow(rng, stack, n, fl, tx=None, nin=0, lock=0, sigs=False, bad=.02, tries=4):
    """Instructions that, started on `stack`, mostly keep running."""
    ops = []
    for _ in range(n):
        for t in range(tries):
            s = snippet(rng, lock, sigs, bad)
            st = list(stack)
            try:
                rs.Machine(tx, nin, fl).eval(rs.serialize(ops + s), st)
                good = True
            except rs.ScriptFail as e:
                good = str(e) == 'UNBALANCED'
            except codec.NumError:
                good = False
            if good or t == tries - 1 and rng.random() < .25:
                ops += s
                break
    # close conditionals, sometimes
    depth = 0
    for o, _ in ops:
        depth += o in (99, 100)
        depth -= o == 104
    while depth > 0 and rng.random() < .95:
        if rng.random() < .4:
            ops += [(103, None)] + [element(rng) for _ in range(rng.randrange(2))]
        ops.append((104, None))
        depth -= 1
    if rng.random() < .6:
        ops.append(rng.choice(((81, None), (81, None), (116, None), (79, None), element(rng))))
    return ops


def final_stack(ops, fl=0, tx=None, nin=0):
    st = []
    try:
        rs.Machine(tx, nin, fl).eval(rs.serialize(ops), st)
    except (rs.ScriptFail, codec.NumError):
        pass
    return st


def transaction(rng, lock=None):
    """(bitforge transaction, reference transaction, input index)"""
    lock = rng.choice((0, 1, 499999999, 500000000, 2**31, 2**32 - 1, gen.uint(rng, 32))) if lock is None else lock
    n = rng.randrange(1, 4)
    vin = [rtx.TxIn(rng.randbytes(32), rng.randrange(4), b'', rng.choice((0xffffffff, 0, 0xfffffffe, gen.uint(rng, 32)))) for _ in range(n)]
    t = rtx.Tx(rng.choice((1, 2)), vin, [rtx.TxOut(rng.randrange(10**9), b'\x51')], lock)
    return Transaction.from_bytes(t.ser()), t, rng.randrange(n)


def observe(ctx, sig, pub, btx=None, nin=0, fl=0, it=None):
    """Runs the real interpreter; returns (verdict, error text, final stack)."""
    a, b = Script.from_bytes(sig), Script.from_bytes(pub)
    it = it or Interpreter()
    args, kw = ((a, b) if btx is None and not fl else (a, b, btx, nin, fl)), {}
    if nin == 0 and btx is not None and len(sig) & 1:     # the first input is the default
        args, kw = (a, b), dict(tx=btx, flags=fl)
    v = ctx.ok('verify', it.verify, *args, **kw)
    ctx.true(v is True or v is False, 'verdict %r of %s / %s' % (v, sig.hex(), pub.hex()))
    if not v:
        ctx.true(isinstance(it.errstr, str) and it.errstr != '', 'false verdict without an error description: %s / %s' % (sig.hex(), pub.hex()))
    ctx.eq(a.to_bytes(), sig, 'the spending script after verification')
    ctx.eq(b.to_bytes(), pub, 'the output script after verification')
    return v, it.errstr, [bytes(x) for x in it.stack] if v or True else None


def differ(ctx, sig, pub, btx=None, rtx_=None, nin=0, fl=0, it=None, finding=True, note=True):
    """Verdict and, when evaluation completes, the stack must be the reference machine's."""
    v, err, stack = observe(ctx, sig, pub, btx, nin, fl, it)
    rv, rerr, rstack, m = rs.verify(sig, pub, rtx_, nin, fl)
    if m.sig_ops_executed:
        ctx.event('skipped: judges a signature')
        return None
    if note:
        for o in m.ops_seen:
            ctx.event('op %d executed' % o if o > 78 else 'push executed')
        ctx.event('true' if rv else 'false: ' + str(rerr))
        ctx.seen(sig, pub, fl, rtx_ and rtx_.lock)
    if v == rv and (rstack is None or stack == rstack):
        return rv
    msg = 'verify(%s, %s, flags=%#x, lock=%s) gave %s (%s) with stack %s; expected %s (%s) with stack %s' % (
        sig.hex(), pub.hex(), fl, rtx_ and rtx_.lock, v, err, [x.hex() for x in stack][-8:], rv, rerr, None if rstack is None else [x.hex() for x in rstack][-8:])
    if finding:
        dv, derr, dstack, dm = rs.verify(sig, pub, rtx_, nin, fl, castbool=rs.cast_to_bool_known_defect)
        if dv == v and (dstack is None or dstack == stack) and not dm.sig_ops_executed:
            ctx.finding('F-CASTBOOL', msg)
            return None
        if dm.sig_ops_executed:
            return None
    ctx.fail(msg)
