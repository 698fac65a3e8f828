from ..lib import *
from ..monitor import short
from bitforge import encoding as enc
from bitforge.tools import Buffer
from bitforge import errors
import re

ID = 'C23'
RULE = ('malformed text, hex, bytes and numbers for every constructor and importer, classified independently by what is wrong with them; the '
        'error must be of a documented class for that defect and of its families, and print; non-trivial: distinct (operation, argument)')
ASSUMPTIONS = ['arguments have the documented types (text, bytes, integers, library objects); integers of at most 4300 digits',
               'when several things are wrong with an argument, the error for any of them is right',
               'extended keys document no error family of their own: their refusals are C18']

GEN = {'InvalidHex': enc.InvalidHex, 'InvalidBase58h': enc.InvalidBase58h, 'UnknownNetwork': networks.UnknownNetwork}
KINDS = {'number': errors.NumberError, 'string': errors.StringError, 'object': errors.ObjectError, 'kv': errors.KeyValueError}


def readable(ctx, e, tokens, what):
    s = ctx.ok('str', str, e)
    ctx.true(isinstance(s, str) and s.strip(), '%s: message of %s is %r' % (what, type(e).__name__, s))
    ctx.true(isinstance(ctx.ok('repr', repr, e), str), 'repr')
    if isinstance(e, BitforgeError):
        ctx.eq(e.message, s, what + ': e.message')
        ctx.eq(e.args, (s,), what + ': e.args')
    for t in tokens:
        ctx.true(t in s, '%s: the message %r does not contain %r' % (what, s[:300], t[:300]))


def refuse(ctx, owner, allowed, name, fn, *a):
    """allowed: {class name: (kind, tokens the message must contain)}."""
    e = ctx.raises(None, name, fn, *a)
    what = '%s(%s)' % (name, ctx._args(a, {}))
    hit = None
    for cls, (kind, toks) in allowed.items():
        c = cls if isinstance(cls, type) else getattr(owner, cls)
        if isinstance(e, c):
            hit = cls
            ctx.true(isinstance(e, BitforgeError), what + ': a BitforgeError')
            if owner is not None:
                ctx.true(isinstance(e, owner.Error), '%s: %s is not a %s.Error' % (what, type(e).__name__, owner.__name__))
            if cls in GEN:
                ctx.true(isinstance(e, GEN[cls]), '%s: not a generic %s' % (what, cls))
            if kind:
                ctx.true(isinstance(e, KINDS[kind]), '%s: not a %s' % (what, KINDS[kind].__name__))
            readable(ctx, e, toks, what)
            break
    if hit is None:
        ctx.fail('%s raised %s.%s (%s), expected one of %s' % (what, type(e).__module__, type(e).__qualname__, str(e)[:200], sorted(map(str, allowed))))
    ctx.event('%s:%s' % (name, hit if isinstance(hit, str) else hit.__name__))
    ctx.seen(name, repr(a))
    return e


def S(s):
    return ('string', [repr(s)])


def SL(s, n):
    return ('string', [str(n)])


def num(n):
    return ('number', [str(n)])


def wrong_secret(d):
    return {} if 0 < d < N else {'InvalidSecret': num(d)}


def badnet(rng):
    return rng.choice(('', 'x', 'Livenet', 'mainnet', 'test net', 'livenet ', '{key}', '{0}', '%s', 'é', 0, 1, -5, 3.5, None, gen.text(rng, 12)))


def netcheck(v):
    return {} if v in NETS else {'UnknownNetwork': ('kv', [str(v), 'name'])}


# -- private keys -----------------------------------------------------------------------------------

def wif_defects(s):
    p = codec.b58check_dec(s)
    if p is None:
        return {'InvalidBase58h': S(s)}
    if len(p) not in (33, 34):
        return {'InvalidWifLength': SL(p, len(p))}
    out = {}
    if len(p) == 34 and p[33] != 1:
        out['InvalidCompressionByte'] = ('string', [])
    if p[0] not in (128, 239):
        out['UnknownNetwork'] = ('kv', [str(p[0]), 'wif_prefix'])
    out.update(wrong_secret(int.from_bytes(p[1:33], 'big')))
    return out


def wif(ctx, rng, i):
    d = rng.choice((gen.secret, gen.bad_secret))(rng) % 2**256
    p = bytes([rng.choice((128, 239, 128, 0, rng.randrange(256)))]) + d.to_bytes(32, 'big') + rng.choice((b'', b'\1', b'\1', bytes([rng.randrange(256)])))
    k = rng.randrange(6)
    if k == 0:
        s = codec.b58check(gen.mutate(rng, p))
    elif k == 1:
        s = gen.mutate_text(rng, codec.b58check(p))
    elif k == 2:
        s = codec.b58check(gen.fill(rng, rng.randrange(50)))
    elif k == 3:
        s = gen.text(rng)
    else:
        s = codec.b58check(p)
    bad = wif_defects(s)
    if bad:
        refuse(ctx, PrivateKey, bad, 'PrivateKey.from_wif', PrivateKey.from_wif, s)
    else:
        ctx.ok('valid', PrivateKey.from_wif, s)


def rawbytes(rng, n, other=60):
    return gen.fill(rng, rng.choice((n, n, n - 1, n + 1, 0, 1, rng.randrange(other))))


def hexed(rng, b):
    h = b.hex()
    return rng.choice((h, h, h, gen.mutate_text(rng, h), h[:-1], h + '0', h + ' ', '0x' + h, h + '\n', gen.text(rng), h[:-2] + '{}', h + '٣', h + '\ud800', h + '{0}', '', 'zz'))


def priv(ctx, rng, i):
    net = rng.choice(NETS) if rng.random() < .7 else badnet(rng)
    d = rng.choice((gen.secret(rng), gen.bad_secret(rng), -gen.secret(rng), N + rng.choice(gen.DICT), 10**rng.randrange(77, 4000)))
    bad = {**netcheck(net), **wrong_secret(d)}
    if bad:
        refuse(ctx, PrivateKey, bad, 'PrivateKey', PrivateKey, d, net)
    b = rawbytes(rng, 32)
    if len(b) == 32 and rng.random() < .6:
        b = gen.bad_secret(rng).to_bytes(34, 'big')[-32:]
    bad = {'InvalidBinaryLength': SL(b, len(b))} if len(b) != 32 else wrong_secret(int.from_bytes(b, 'big'))
    bad.update(netcheck(net))
    if bad:
        refuse(ctx, PrivateKey, bad, 'PrivateKey.from_bytes', PrivateKey.from_bytes, b, net)
    h = hexed(rng, b)
    if not is_hex(h):
        bad = {'InvalidHex': S(h)}
    elif len(h) != 64:
        bad = {'InvalidBinaryLength': SL(h, len(h) // 2)}
    else:
        bad = wrong_secret(int(h, 16))
    bad.update(netcheck(net))
    if bad:
        refuse(ctx, PrivateKey, bad, 'PrivateKey.from_hex', PrivateKey.from_hex, h, net)


# -- public keys --------------------------------------------------------------------------------------

def pub_defects(b):
    if ec.parse_sec(b) is not None:
        return {}
    return {'InvalidBinary': ('string', [repr(b)]), **({'InvalidPair': ('object', [])} if len(b) in (33, 65) else {})}


def pub(ctx, rng, i):
    net = rng.choice(NETS) if rng.random() < .75 else badnet(rng)
    q = points(rng)
    s = ec.sec(q, rng.random() < .5)
    k = rng.randrange(6)
    if k == 0:
        b = gen.mutate(rng, s)
    elif k == 1:
        b = bytes([rng.randrange(256)]) + s[1:]
    elif k == 2:
        b = s[:1] + gen.fill(rng, len(s) - 1)
    elif k == 3:
        b = gen.fill(rng, rng.randrange(70))
    elif k == 4:
        b = s[:rng.randrange(len(s))]
    else:
        b = s
    bad = {**pub_defects(b), **netcheck(net)}
    if bad:
        refuse(ctx, PublicKey, bad, 'PublicKey.from_bytes', PublicKey.from_bytes, b, net)
    h = hexed(rng, b)
    bad = {'InvalidHex': S(h)} if not is_hex(h) else pub_defects(bytes.fromhex(h))
    bad.update(netcheck(net))
    if bad:
        refuse(ctx, PublicKey, bad, 'PublicKey.from_hex', PublicKey.from_hex, h, net)
    x, y = rng.choice(((q[0], q[1] + 1), (q[1], q[0]), (q[0] + P, q[1]), (q[0], q[1] - P), (0, 0), (P, 0), (-1, 5), (gen.uint(rng, 256), gen.uint(rng, 256)), q))
    bad = netcheck(net)
    if not (0 <= x < P and 0 <= y < P and (y * y - x**3 - 7) % P == 0):
        bad['InvalidPair'] = ('object', [str(x), str(y)])
    if bad:
        refuse(ctx, PublicKey, bad, 'PublicKey', PublicKey, (x, y), net)


# -- addresses -----------------------------------------------------------------------------------------

def addr_defects(b):
    if len(b) != 21:
        return {'InvalidBinaryLength': ('string', [repr(b), str(len(b))])}
    return {} if b[0] in (0, 5, 111, 196) else {'InvalidVersion': num(b[0])}


def addr(ctx, rng, i):
    net = rng.choice(NETS) if rng.random() < .7 else badnet(rng)
    h = rawbytes(rng, 20)
    t = rng.choice((Address.Type.PublicKey, Address.Type.Script, Address.Type.PublicKey, 'pubkeyhash', None, 5, networks.livenet, '{object}'))
    bad = netcheck(net)
    if len(h) != 20:
        bad['InvalidHashLength'] = ('string', [repr(h), str(len(h))])
    if not isinstance(t, Address.Type):
        bad['InvalidType'] = ('object', [str(t)])
    if bad:
        refuse(ctx, Address, bad, 'Address', Address, h, net, t)
    b = rng.choice((bytes([rng.choice((0, 5, 111, 196, rng.randrange(256)))]) + h, gen.fill(rng, rng.randrange(50)), bytes([rng.randrange(256)]) + gen.fill(rng, 20)))
    bad = addr_defects(b)
    if bad:
        refuse(ctx, Address, bad, 'Address.from_bytes', Address.from_bytes, b)
    x = hexed(rng, b)
    bad = {'InvalidHex': S(x)} if not is_hex(x) else addr_defects(bytes.fromhex(x))
    if bad:
        refuse(ctx, Address, bad, 'Address.from_hex', Address.from_hex, x)
    s = rng.choice((codec.b58check(b), gen.mutate_text(rng, codec.b58check(b)), codec.b58enc(b), gen.text(rng)))
    p = codec.b58check_dec(s)
    bad = {'InvalidBase58h': S(s)} if p is None else addr_defects(p)
    if bad:
        refuse(ctx, Address, bad, 'Address.from_string', Address.from_string, s)


# -- opcodes, instructions, scripts -----------------------------------------------------------------------

def op(ctx, rng, i):
    n = rng.choice((-1, 256, -gen.uint(rng, 40) - 1, 256 + gen.uint(rng, 70), 10**300))
    refuse(ctx, Opcode, {'UnknownOpcodeNumber': num(n)}, 'Opcode', Opcode, n)
    s = rng.choice((gen.text(rng, 20), 'OP_' + gen.text(rng, 10), gen.mutate_text(rng, rng.choice(sorted(rs.OPS))), '', 'OP_', 'Opcode', '__name__', 'OP_{0}'))
    if s not in rs.OPS:
        refuse(ctx, Opcode, {'UnknownOpcodeName': S(s)}, 'Opcode.from_name', Opcode.from_name, s)
    n = rng.choice((0, -1, 76, 77, 2**32, -gen.uint(rng, 33), 76 + gen.uint(rng, 40)))
    refuse(ctx, Opcode, {'InvalidConstPushLength': num(n)}, 'Opcode.const_push_for', Opcode.const_push_for, n)
    n = rng.choice((0, -1, 2**32, 2**32 + gen.uint(rng, 40), -gen.uint(rng, 40)))
    refuse(ctx, Opcode, {'InvalidPushLength': num(n)}, 'Opcode.var_push_for', Opcode.var_push_for, n)
    refuse(ctx, Opcode, {'InvalidPushLength': num(n), 'InvalidConstPushLength': num(n)}, 'Opcode.push_for', Opcode.push_for, n)
    o = Opcode(rng.randrange(256))
    if not (o.number == 0 or 81 <= o.number <= 96):
        refuse(ctx, Opcode, {'WrongOpcodeType': ('object', [rs.NAMES[o.number]] if o.number in rs.NAMES and o.number > 75 else [])}, 'Opcode.number_value', o.number_value)
    if not 76 <= o.number <= 78:
        refuse(ctx, Opcode, {'WrongOpcodeType': ('object', [])}, 'Opcode.data_length_nbytes', Opcode.data_length_nbytes, o)


def ins(ctx, rng, i):
    x = rng.choice((97, 'OP_DUP', b'\x61', None, gen.uint(rng, 10), gen.text(rng, 9), 3.5))
    refuse(ctx, Instruction, {'TypeError': ('object', [str(x)])}, 'Instruction', Instruction, x)
    o = Opcode(rng.choice((0, rng.randrange(79, 256))))
    refuse(ctx, Instruction, {'UnexpectedData': ('object', [str(o)])}, 'Instruction', Instruction, o, gen.fill(rng, rng.choice((0, 1, 20, 80))))
    n = rng.randrange(1, 77)
    d = gen.fill(rng, rng.choice((0, n - 1, n + 1, 75, 76, 255, 256, rng.randrange(300))))
    if len(d) > 255 if n == 76 else len(d) != n:
        refuse(ctx, Instruction, {'InvalidDataLength': (None, [str(len(d)), str(255 if n == 76 else n)])}, 'Instruction', Instruction, Opcode(n), d)
    if rng.random() < .02:
        d = bytes(65536 + rng.randrange(3))
        refuse(ctx, Instruction, {'InvalidDataLength': (None, [str(len(d)), '65535'])}, 'Instruction', Instruction, Opcode(77), d)


def script_text(ctx, rng, i):
    from . import c10
    toks = [x for t in c10.tokens(c10.small_ops(rng, rng.randrange(1, 5))) for x in t]
    p = rng.randrange(len(toks))
    k = rng.randrange(5)
    if k == 0:
        toks[p] = gen.mutate_text(rng, toks[p])
    elif k == 1:
        toks = toks[:p] + [rng.choice(('OP_PUSHDATA1', 'OP_PUSHDATA2', 'OP_PUSHDATA4', '5', '75', 'OP_PUSHDATA1 5', 'OP_PUSHDATA4 x 0x00', 'OP_PUSHDATA2 3 0x0000', '5 0x00', '5 00',
                                       '76 0x00', '0 0x', 'OP_DUPE', 'DUP', '{0}', '5 {0}', 'OP_PUSHDATA1 {0} {1}', '3 0xzzzzzz', '9' * 40, '2 0x00é', 'OP_PUSHDATA1 1 0x0', '1 0x'))]
    elif k == 2:
        del toks[p]
    elif k == 3:
        toks.insert(p, gen.text(rng, 12))
    else:
        toks[p] = toks[p].lower()
    t = ' '.join(toks)
    want = c10.ref_parse(t)
    if want is None:
        e = ctx.raises(None, 'Script.from_string', Script.from_string, t)
        fam = (Script.Error, Opcode.Error, Instruction.Error, enc.EncodingError)
        ctx.true(isinstance(e, BitforgeError) and isinstance(e, fam), 'Script.from_string(%r) raised %s.%s: %s' % (t, type(e).__module__, type(e).__qualname__, e))
        readable(ctx, e, [], 'Script.from_string(%r)' % t)
        # the message names a token of the text, or a number in it / of its data
        ctx.event('Script.from_string:' + type(e).__name__)
        ctx.seen('st', t)


# -- truncated and otherwise broken wire data ------------------------------------------------------------------

def short_read(ctx, name, fn, b):
    e = ctx.raises(None, name, fn, b)
    ctx.true(isinstance(e, Buffer.InsufficientData) and isinstance(e, Buffer.Error) and isinstance(e, BitforgeError),
             '%s(%s) raised %s.%s: %s' % (name, short(b), type(e).__module__, type(e).__qualname__, e))
    readable(ctx, e, [], name)
    n = [int(x) for x in re.findall('[0-9]+', str(e))]
    ctx.true(len(n) == 2 and n[0] > n[1] and n[1] <= len(b), '%s: message %r' % (name, str(e)))
    ctx.event(name + ':InsufficientData')
    ctx.seen(name, b)


def plain(rng):
    return gen.script_bytes(rng, rng.randrange(4), top=80)


def wire(ctx, rng, i):
    b = gen.script_bytes(rng, rng.randrange(1, 6), top=100)
    cut = b[:rng.randrange(len(b))]
    if rs.parse(cut) is None:
        short_read(ctx, 'Script.from_bytes', Script.from_bytes, cut)
    ins_ = [rtx.TxIn(gen.fill(rng, 32), gen.uint(rng, 32), plain(rng), gen.uint(rng, 32)) for _ in range(rng.randrange(1, 4))]
    outs = [rtx.TxOut(gen.uint(rng, 63), plain(rng)) for _ in range(rng.randrange(1, 4))]
    t = rtx.Tx(gen.uint(rng, 32), ins_, outs, gen.uint(rng, 32)).ser()
    for name, cls, full in (('Transaction', Transaction, t), ('Input', Input, ins_[0].ser()), ('Output', Output, outs[0].ser())):
        short_read(ctx, name + '.from_bytes', cls.from_bytes, full[:rng.randrange(len(full))])
        h = hexed(rng, full)
        if not is_hex(h):
            refuse(ctx, None, {enc.InvalidHex: S(h)}, name + '.from_hex', cls.from_hex, h)
    # a claimed size beyond the data
    o = outs[0].ser()
    n = 2**rng.choice((8, 16, 31, 32, 63)) + len(o)
    short_read(ctx, 'Output.from_bytes', Output.from_bytes, o[:8] + codec.varint(n) + o[9:])


def txctor(ctx, rng, i):
    ti = Input('00' * 32, 0, Script())
    to = Output(5, Script())
    refuse(ctx, Transaction, {'NoInputs': (None, [])}, 'Transaction', Transaction, rng.choice(([], ())), rng.choice(([to], [to, to], (to,))))
    refuse(ctx, Transaction, {'NoOutputs': (None, [])}, 'Transaction', Transaction, [ti], rng.choice(([], ())))
    junk = rng.choice((to, None, 5, 'x', b'', Script(), '{object}'))
    where = [ti] * rng.randrange(3)
    where.insert(rng.randrange(len(where) + 1), junk)
    refuse(ctx, Transaction, {'NotAnInput': ('object', [str(junk)])}, 'Transaction', Transaction, where, [to])
    junk = rng.choice((ti, None, 5, 'x', b'', Script(), '{object}'))
    where = [to] * rng.randrange(3)
    where.insert(rng.randrange(len(where) + 1), junk)
    refuse(ctx, Transaction, {'NotAnOutput': ('object', [str(junk)])}, 'Transaction', Transaction, [ti], where)
    n = rng.choice((-1, 2**32, 2**32 + gen.uint(rng, 40), -gen.uint(rng, 40) - 1, 2**64, 10**50))
    refuse(ctx, Transaction, {'InvalidLockTime': num(n)}, 'Transaction', Transaction, [ti], [to], n)
    tx = Transaction([ti], [to])
    refuse(ctx, Input, {'UnknownSignatureMethod': (None, [])}, 'Transaction.sign', tx.sign, [PrivateKey(5)], 0)
    ai = AddressInput.create('00' * 32, 0, Address(bytes(20)))
    n = rng.choice((0, 2, 3, 7))
    refuse(ctx, Input, {'InvalidSignatureCount': (None, ['1', str(n)])}, 'Transaction.sign', Transaction([ai], [to]).sign, [PrivateKey(5)] * n, 0)
    n = rng.choice((81, 82, 100, 255, 256, 81 + gen.uint(rng, 10)))
    refuse(ctx, DataOutput, {'TooMuchData': num(n)}, 'DataOutput.create', DataOutput.create, bytes(n))


# -- plain codecs, units, URIs ---------------------------------------------------------------------------------------

def codecs(ctx, rng, i):
    s = rng.choice((gen.text(rng), gen.mutate_text(rng, codec.b58check(gen.fill(rng, rng.randrange(30)))), codec.b58enc(gen.fill(rng, 12)), '', '1', '0OIl', '{0}', 'é', '\ud800', '\x00'))
    if codec.b58check_dec(s) is None:
        refuse(ctx, None, {enc.InvalidBase58h: S(s)}, 'decode_base58h', enc.decode_base58h, s)
    h = hexed(rng, gen.fill(rng, rng.randrange(40)))
    if not is_hex(h):
        refuse(ctx, None, {enc.InvalidHex: S(h)}, 'decode_hex', enc.decode_hex, h)
    n, ln = rng.choice((gen.uint(rng, 80), -gen.uint(rng, 40) - 1)), rng.randrange(0, 9)
    if n < 0 or n >> (8 * ln):
        refuse(ctx, None, {enc.InvalidInteger: num(n)}, 'encode_int', enc.encode_int, n, rng.random() < .5, ln)
    b = gen.fill(rng, rng.choice((0, 1, 2, 4, 5, 6, rng.randrange(20))))
    size, minimal = rng.choice((4, 5)), rng.random() < .5
    bad = {}
    if len(b) > size:
        bad[enc.InvalidScriptNumber] = S(b)
    if minimal and b and not b[-1] & 0x7f and (len(b) == 1 or not b[-2] & 0x80):
        bad[enc.InvalidMinimalScriptNumber] = S(b)
    if bad:
        e = refuse(ctx, None, bad, 'decode_script_number', enc.decode_script_number, b, minimal, size)
        ctx.true(isinstance(e, enc.EncodingError), 'an EncodingError')
    d = gen.fill(rng, rng.randrange(20))
    buf = Buffer(d)
    n = len(d) + rng.choice((1, 2, 2**16, gen.uint(rng, 60) + 1))
    e = refuse(ctx, Buffer, {'InsufficientData': (None, [str(n), str(len(d))])}, 'Buffer.read', buf.read, n)
    v = badnet(rng)
    if v not in NETS:
        refuse(ctx, None, {networks.UnknownNetwork: ('kv', [str(v), 'name'])}, 'networks.find', networks.find, v)
    attr = rng.choice(('pubkeyhash', 'wif_prefix', 'scripthash', 'hd_public_key', 'hd_private_key', 'magic', 'port', 'no_such', 'naam'))
    v = rng.choice((1, 7, -1, 256, gen.uint(rng, 32), 'x', '{value}'))
    if v not in [getattr(x, attr, None) for x in NET.values()]:
        refuse(ctx, None, {networks.UnknownNetwork: ('kv', [str(v), attr])}, 'networks.find', networks.find, v, attr)


def money(ctx, rng, i):
    readable(ctx, ctx.raises(ValueError, 'Unit', Unit), [], 'Unit()')
    v = rng.choice((None, 5, [], b'bitcoin:', 3.5, ()))
    readable(ctx, ctx.raises(ValueError, 'URI', URI, v), [], 'URI(%r)' % (v,))
    a = codec.b58check(bytes([rng.choice((0, 5, 111, 196))]) + gen.fill(rng, 20))
    bad = gen.mutate_text(rng, a)
    if codec.b58check_dec(bad) is None and bad.isascii() and bad.isalnum():
        e = ctx.raises(Address.Error, 'URI-address', URI, 'bitcoin:' + bad)
        readable(ctx, e, [repr(bad)], 'URI')
        readable(ctx, ctx.raises(Address.Error, 'URI-address', URI, {'address': bad}), [repr(bad)], 'URI')
    for s in ('bitcoin' + a, 'bitcoins:' + a, 'http://' + a, a, '', 'litecoin:' + a, gen.text(rng, 20)):
        if not s.lower().lstrip().startswith('bitcoin:'):
            ctx.raises((ValueError, Address.Error), 'URI-scheme', URI, s)
    am = rng.choice(('x', '', '1.2.3', '1,5', '0x10', 'one', '1e', '--1', gen.text(rng, 8)))
    try:
        float(am)
        return
    except ValueError:
        pass
    if am and am.isascii() and not set(am) & set('%+&=#;') and am.isprintable():
        ctx.raises((ValueError, OverflowError), 'URI-amount', URI, 'bitcoin:%s?amount=%s' % (a, am))


DIRECT = set('''EncodingError InvalidBase58h InvalidHex InvalidInteger InvalidScriptNumber InvalidMinimalScriptNumber UnknownNetwork PrivateKey.InvalidSecret
    PrivateKey.UnknownNetwork PrivateKey.InvalidWifLength PrivateKey.InvalidCompressionByte PrivateKey.InvalidBase58h PrivateKey.InvalidHex
    PrivateKey.InvalidBinaryLength PublicKey.InvalidPair PublicKey.UnknownNetwork PublicKey.InvalidBinary PublicKey.InvalidHex Address.UnknownNetwork
    Address.InvalidVersion Address.InvalidBase58h Address.InvalidHex Address.InvalidHashLength Address.InvalidBinaryLength Address.InvalidType
    Opcode.UnknownOpcodeName Opcode.UnknownOpcodeNumber Opcode.InvalidConstPushLength Opcode.InvalidPushLength Opcode.TypeError Opcode.WrongOpcodeType
    Instruction.TypeError Instruction.UnexpectedData Script.MissingPushArguments Script.InvalidPushSize Script.InvalidPushData Script.InvalidPushDataLength
    Script.UnknownOpcodeName Transaction.NoInputs Transaction.NoOutputs Transaction.NotAnInput Transaction.NotAnOutput Transaction.InvalidLockTime
    Input.UnknownSignatureMethod DataOutput.TooMuchData'''.split())


def direct(ctx, rng, i):
    """The error classes made by hand prints its arguments (values with braces, percent signs, any text)."""
    todo = ctx.state.get('classes')
    if todo is None:
        seen, stack = {}, [BitforgeError]
        while stack:
            c = stack.pop()
            for s in c.__subclasses__():
                if s not in seen:
                    seen[s] = 1
                    stack.append(s)
        todo = ctx.state['classes'] = sorted((c for c in seen if c.__qualname__ in DIRECT and c.__doc__), key=lambda c: (c.__module__, c.__qualname__))
    c = todo[rng.randrange(len(todo))]
    t = rng.choice((gen.text(rng, 12), '{x}', '{0}', '%s', '{', '}', "'", 'é☃', '\ud800', ''))
    if issubclass(c, errors.StringError):
        v = rng.choice((t, t.encode('utf8', 'surrogatepass'), gen.fill(rng, rng.randrange(9))))
        e = ctx.ok('make', c, v)
        want = [repr(v)] if '{string}' in c.__doc__ else []
        if '{length}' in c.__doc__:
            want.append(str(len(v)))
    elif issubclass(c, errors.NumberError):
        v = rng.choice((0, -1, gen.uint(rng, 300), 10**1000, -gen.uint(rng, 40)))
        e = ctx.ok('make', c, v)
        want = [str(v)]
    elif issubclass(c, errors.KeyValueError):
        e = ctx.ok('make', c, 'a' + t, t)
        want = ['a' + t, t]
    elif c is Opcode.WrongOpcodeType:
        e = ctx.ok('make', c, Opcode(97))
        want = ['OP_NOP']
    elif issubclass(c, errors.ObjectError):
        v = rng.choice((t, None, 5, (1, 2), [3]))
        e = ctx.ok('make', c, v)
        want = [str(v)]
    elif c in (Transaction.NoInputs, Transaction.NoOutputs, Input.UnknownSignatureMethod):
        e = ctx.ok('make', c)
        want = []
    else:
        return
    readable(ctx, e, want, c.__qualname__)
    ctx.event('class:' + c.__qualname__)


SECTIONS = [('wif', wif, 12000, 240000), ('priv', priv, 6000, 120000), ('pub', pub, 6000, 120000), ('addr', addr, 6000, 120000), ('op', op, 2000, 40000),
            ('ins', ins, 4000, 80000), ('script_text', script_text, 8000, 160000), ('wire', wire, 3000, 60000), ('txctor', txctor, 1500, 12000),
            ('codecs', codecs, 8000, 160000), ('money', money, 3000, 60000), ('direct', direct, 4000, 80000)]
REQUIRE = {'PrivateKey.from_wif:InvalidBase58h': 1000, 'PrivateKey.from_wif:InvalidWifLength': 1000, 'PrivateKey.from_wif:InvalidCompressionByte': 300,
           'PrivateKey.from_wif:UnknownNetwork': 300, 'PrivateKey.from_wif:InvalidSecret': 300, 'PrivateKey:InvalidSecret': 500, 'PrivateKey:UnknownNetwork': 500,
           'PrivateKey.from_bytes:InvalidBinaryLength': 500, 'PrivateKey.from_hex:InvalidHex': 500, 'PublicKey.from_bytes:InvalidBinary': 500,
           'PublicKey.from_hex:InvalidHex': 500, 'PublicKey:InvalidPair': 500, 'Address:InvalidHashLength': 500, 'Address:InvalidType': 300,
           'Address.from_string:InvalidBase58h': 500, 'Address.from_bytes:InvalidVersion': 500, 'Address.from_hex:InvalidBinaryLength': 300,
           'Opcode*': 1000, 'Instruction:*': 3000, 'Script.from_string:*': 2000, 'Transaction.from_bytes:InsufficientData': 1000, 'Transaction:*': 2000,
           'decode_base58h:*': 1000, 'decode_hex:*': 500, 'encode_int:*': 500, 'decode_script_number:*': 500, 'Buffer.read:*': 1000, 'networks.find:*': 1000, 'class:*': 2000}
