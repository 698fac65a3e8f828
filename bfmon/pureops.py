"""Operations of the library as pure functions of plain data, for C20: each takes plain arguments (and a getter for objects that may be
shared between operations), runs the real code and gives a plain, comparable result.  Randomised signatures are reduced to 'valid or not'
by the reference model.  Mutable results are spoiled after they were read, as a caller may."""
import decimal
from .lib import *
from .progs import Interpreter
from . import progs
from bitforge import encoding as enc, utils
from bitforge.tools import Buffer
from bitforge.signature import validate_signature
from bitforge.utils import ecdsa as lecdsa, numbertheory, ellipticcurve, intbytes
from bitforge.script import PayToPubkeyOut, PayToScriptOut, RedeemMultisig, OpReturnOut, PayToScriptIn, PayToPubkeyIn


def near(rng, b):
    """Bytes of the same length that differ in one place: at one end, or in the middle."""
    x = bytearray(b)
    x[rng.choice((0, len(x) // 2, len(x) - 1, rng.randrange(len(x))))] ^= 1 << rng.randrange(8)
    return bytes(x)


def near_text(rng, s):
    """The text with one character changed: near one of its ends, or in the middle; or a little shorter."""
    if rng.random() < .2:
        return s[:-1] if rng.random() < .5 else s[1:]
    i = rng.choice((0, 1, len(s) // 2, len(s) - 1, rng.randrange(len(s))))
    return s[:i] + rng.choice('123ABCxyz') + s[i + 1:]


def near_script(rng, b):
    """A script of as many instructions, all but one of them the same."""
    ops = rs.parse(b)
    if not ops:
        return b'\x61'
    i = rng.choice((0, len(ops) // 2, len(ops) - 1, rng.randrange(len(ops))))
    o, d = ops[i]
    ops[i] = (o, near(rng, d)) if d and rng.random() < .5 else rng.choice(((0, None), (81, None), (97, None), (76, b'')))
    return rs.serialize(ops)


def near_tx(rng, b):
    """A transaction that differs in one field."""
    t = rtx.parse(b)
    i, o, k = rng.choice(t.vin), rng.choice(t.vout), rng.randrange(7)
    if k == 0: t.version ^= 1
    elif k == 1: t.lock ^= 1 << rng.randrange(32)
    elif k == 2: i.seq ^= 1 << rng.randrange(32)
    elif k == 3: i.prev = near(rng, i.prev)
    elif k == 4: i.index ^= 1
    elif k == 5: o.amount ^= 1
    else: o.script = near_script(rng, o.script)
    return t.ser()


class World:
    """A small stock of related plain values, so that operations keep meeting the same data in other roles."""
    def __init__(self, rng):
        self.secrets = [gen.secret(rng), gen.secret(rng)]
        self.points = [ec.gmul(d) for d in self.secrets] + [points(rng)]
        # others that agree with the first in their low bits, their high bits, modulo Python's hash, or up to sign
        d, e = self.secrets[0], rng.randrange(1, N)
        self.secrets += [rng.choice((e >> 64 << 64 | d & 2**64 - 1, e >> 128 << 128 | d & 2**128 - 1, e >> 32 << 32 | d & 2**32 - 1)) % N or 3,
                         rng.choice((d >> 128 << 128 | e & 2**128 - 1, d >> 64 << 64 | e & 2**64 - 1)) % N or 5,
                         (d + (2**61 - 1) * rng.choice((1, 2**130 + 7))) % N or 7, N - d]
        self.points.append((self.points[0][0], P - self.points[0][1]))
        self.digests = [gen.digest(rng), gen.digest(rng)]
        self.digests.append(near(rng, self.digests[0]))
        self.sigs = [ec.sign_k(d, int.from_bytes(z, 'big'), rng.randrange(1, N)) for d in self.secrets for z in self.digests]
        self.hashes = [gen.fill(rng, 20), codec.hash160(ec.sec(self.points[0]))]
        self.hashes.append(near(rng, self.hashes[0]))
        self.scripts = [gen.script_bytes(rng, rng.randrange(1, 6), top=40) for _ in range(3)]
        self.scripts += [b'\x76\xa9\x14' + self.hashes[1] + b'\x88\xac', b'\xa9\x14' + self.hashes[0] + b'\x87', b'']
        self.redeem = b'\x51' + b''.join(rs.push(ec.sec(q)) for q in self.points) + b'\x53\xae'
        self.scripts.append(self.redeem)
        self.scripts += [near_script(rng, b) for b in self.scripts for _ in range(2)]
        self.programs = []
        for k in range(8):
            fl = progs.flags(rng) if k else 0
            sig = progs.grow(rng, [], rng.randrange(0, 4), fl)
            pub = progs.grow(rng, progs.final_stack(sig, fl), rng.randrange(1, 6), fl)
            self.programs.append((rs.serialize(sig), rs.serialize(pub), fl))
        red = rs.serialize(progs.grow(rng, [], 3, 0) + [(81, None)])
        if len(red) <= 520:
            for fl in (0, rs.P2SH):
                self.programs.append((rs.push(b'\1') + rs.push(red), b'\xa9\x14' + codec.hash160(red) + b'\x87', fl))
                self.programs.append((rs.push(b'\1') + rs.push(red + b'\x61'), b'\xa9\x14' + codec.hash160(red) + b'\x87', fl))
        self.txs = []
        for _ in range(3):
            ins = [rtx.TxIn(gen.fill(rng, 32), rng.randrange(4), rng.choice(self.scripts), gen.uint(rng, 32)) for _ in range(rng.randrange(1, 3))]
            outs = [rtx.TxOut(gen.uint(rng, 40), rng.choice(self.scripts)) for _ in range(rng.randrange(1, 3))]
            self.txs.append(rtx.Tx(rng.choice((1, 2)), ins, outs, rng.choice((0, 5, gen.uint(rng, 32)))).ser())
        self.txs += [near_tx(rng, b) for b in self.txs for _ in range(3)]
        self.seeds = [gen.fill(rng, 32)]
        self.seeds.append(near(rng, self.seeds[0]))
        self.indices = [0, rng.choice((1, 2, 7)), 2**31]
        node = bip32.Node.seed(self.seeds[0], rng.choice(NETS))
        self.hd = [node, node.child(1)]
        a, b = self.hd
        self.hd += [bip32.Node(a.d, a.Q, near(rng, a.chain), a.depth, a.index, a.parent, a.net), bip32.Node(a.d, a.Q, a.chain, a.depth, a.index, a.parent, NETS[a.net == NETS[0]]),
                    bip32.Node(b.d, b.Q, a.chain, *rng.choice(((a.depth, a.index, a.parent), (b.depth, b.index ^ 1, b.parent))), a.net)]
        self.addresses = [codec.b58check(bytes([v]) + h) for v in (0, 5, 111, 196) for h in self.hashes]
        self.amounts = [0, 1, 123456789, 2099999999999999, gen.uint(rng, 50)]
        self.ints = [0, 1, 127, 128, 255, 256, 65535, 65536, gen.uint(rng, 32), gen.uint(rng, 64)]
        self.blobs = [b'', b'\0', b'\0\0\1', gen.fill(rng, 5), gen.fill(rng, 21)] + [ec.sec(q, c) for q in self.points for c in (True, False)]
        self.blobs += [near(rng, b) for b in self.blobs[2:]]
        self.opcodes = [rng.randrange(256) for _ in range(6)] + [0, 76, 81, 96]


OPS = {}


def op(weight):
    def deco(f):
        OPS[f.__name__] = (f, weight)
        return f
    return deco


def spoil(v):
    """A caller may do this with a list, dict or bytearray he was given."""
    if isinstance(v, list):
        v.clear()
        v.append(None)
    elif isinstance(v, dict):
        v.clear()
    elif isinstance(v, bytearray):
        v[:] = b'\xee' * (len(v) + 1)


def take(v):
    c = list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else bytes(v) if isinstance(v, bytearray) else v
    spoil(v)
    return c


def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        if isinstance(e, (MemoryError, RecursionError)) or type(e).__name__ == 'Injected':
            raise
        return ('raised', type(e).__qualname__, str(e)[:300])


def fields(o):
    """Plain form of a library value."""
    if isinstance(o, PrivateKey):
        return ('priv', o.secret, o.network.name, bool(o.compressed))
    if isinstance(o, PublicKey):
        return ('pub', tuple(o.pair), o.network.name, bool(o.compressed))
    if isinstance(o, Address):
        return ('addr', bytes(o.phash), o.network.name, o.type.name)
    if isinstance(o, (HDPrivateKey, HDPublicKey)):
        return (type(o).__name__, o.to_string(), o.network.name, o.depth, o.index, o.parent, o.fingerprint)
    if isinstance(o, Script):
        return (type(o).__name__, [(i.opcode.number, i.data) for i in o.instructions])
    if isinstance(o, (Input, Output)):
        return (type(o).__name__, [fields(x) if isinstance(x, Script) else x for x in tuple(o)])
    if isinstance(o, Transaction):
        return ('tx', [fields(x) for x in o.inputs], [fields(x) for x in o.outputs], o.lock_time, o.version)
    return o


def key(sh, d, net, comp):
    return sh(('priv', d, net, comp), lambda: PrivateKey(d, NET[net], comp))


def pkey(sh, q, net, comp):
    return sh(('pub', q, net, comp), lambda: PublicKey(q, NET[net], comp))


def scr(sh, b):
    return sh(('script', b), lambda: Script.from_bytes(b))


def trans(sh, b):
    return sh(('tx', b), lambda: Transaction.from_bytes(b))


class ArgMaker:
    """Draws the arguments of an operation from a world."""
    def __init__(self, w, rng):
        self.w, self.rng = w, rng

    def __getattr__(self, name):
        return self.rng.choice(getattr(self.w, name))

    @property
    def net(self):
        return self.rng.choice(NETS)

    @property
    def flag(self):
        return self.rng.random() < .5


def make(name, w, rng):
    """A plain call: (name, args)."""
    m = ArgMaker(w, rng)
    return (name, ARGS[name](m))


ARGS = {}


def args(name, f):
    ARGS[name] = f


# -- keys and addresses ---------------------------------------------------------------------------------

@op(3)
def priv_exports(sh, d, net, comp):
    k = key(sh, d, net, comp)
    return fields(k), k.to_wif(), k.to_hex(), k.to_bytes(), repr(k), hash(k) == hash(PrivateKey(d, NET[net], comp)), k == PrivateKey(d, NET[net], comp)
args('priv_exports', lambda m: (m.secrets, m.net, m.flag))


@op(2)
def priv_public(sh, d, net, comp):
    p = key(sh, d, net, comp).to_public_key()
    return fields(p), p.to_hex(), fields(p.to_address())
args('priv_public', lambda m: (m.secrets, m.net, m.flag))


@op(1)
def priv_address(sh, d, net, comp):
    return key(sh, d, net, comp).to_address().to_string()
args('priv_address', lambda m: (m.secrets, m.net, m.flag))


@op(3)
def priv_import(sh, how, v, net, comp):
    if how == 'wif':
        return attempt(lambda: fields(PrivateKey.from_wif(v)))
    f = PrivateKey.from_hex if how == 'hex' else PrivateKey.from_bytes
    return attempt(lambda: fields(f(v, NET[net], comp)))


def _imp(m):
    d, net, comp, how = m.secrets, m.net, m.flag, m.rng.choice(('wif', 'hex', 'bytes'))
    b = d.to_bytes(32, 'big')
    if how == 'wif':
        v = codec.b58check(bytes([VERSIONS[net, 'wif']]) + b + (b'\1' if comp else b''))
    else:
        v = b.hex() if how == 'hex' else b
    if m.rng.random() < .4:
        v = v[:-1] if how == 'bytes' else near_text(m.rng, v)
    return how, v, m.net, m.flag
args('priv_import', _imp)


@op(1)
def priv_sign(sh, d, net, comp, z):
    s = key(sh, d, net, comp).sign(z)
    rsig = ec.parse_der_strict(s)
    return rsig is not None and ec.verify(ec.gmul(d), int.from_bytes(z, 'big'), *rsig) and rsig[1] <= N // 2
args('priv_sign', lambda m: (m.secrets, m.net, m.flag, m.digests))


@op(1)
def priv_verify(sh, d, net, comp, z, rsig):
    r = attempt(key(sh, d, net, comp).verify, ec.der(*rsig), z)
    return r if r is True else 'no'
args('priv_verify', lambda m: (m.secrets, m.net, m.flag, m.digests, m.sigs))


@op(3)
def pub_exports(sh, q, net, comp):
    k = pkey(sh, q, net, comp)
    return fields(k), k.to_bytes(), k.to_hex(), repr(k), fields(k.to_address()), k.to_address().to_string(), k == PublicKey(q, NET[net], comp)
args('pub_exports', lambda m: (m.points, m.net, m.flag))


@op(4)
def pub_import(sh, b, net, ashex):
    return attempt(lambda: fields(PublicKey.from_hex(b.hex(), NET[net]) if ashex else PublicKey.from_bytes(b, NET[net])))
args('pub_import', lambda m: (m.blobs, m.net, m.flag))


@op(2)
def addr_import(sh, s):
    a = attempt(Address.from_string, s)
    if not isinstance(a, Address):
        return a
    return fields(a), a.to_string(), a.to_hex(), fields(Address.from_hex(a.to_hex())), fields(Address.from_bytes(a.to_bytes())), repr(a)
args('addr_import', lambda m: (lambda s: (s if m.rng.random() < .6 else near_text(m.rng, s),))(m.addresses))


@op(2)
def addr_create(sh, h, net, script):
    a = sh(('addr', h, net, script), lambda: Address(h, NET[net], Address.Type.Script if script else Address.Type.PublicKey))
    return fields(a), a.to_string(), a.to_bytes()
args('addr_create', lambda m: (m.hashes, m.net, m.flag))


@op(2)
def addr_script(sh, b, net):
    return fields(Address.from_script(scr(sh, b), NET[net])), fields(Address.from_script(scr(sh, b)))
args('addr_script', lambda m: (m.scripts, m.net))


# -- extended keys -----------------------------------------------------------------------------------------

@op(1)
def hd_seed(sh, seed, i):
    k = sh(('seed', seed), lambda: HDPrivateKey.from_seed(seed))
    return fields(k), fields(k.derive(i))
args('hd_seed', lambda m: (m.seeds, m.indices))


@op(1)
def hd_text(sh, s, i, hardened):
    k = sh(('hd', s), lambda: HDPrivateKey.from_string(s))
    return fields(k), fields(k.derive(i, hardened))
args('hd_text', lambda m: ((lambda s: s if m.rng.random() < .7 else near_text(m.rng, s))(m.hd.text()), m.indices, m.flag))


@op(1)
def hd_public(sh, s, i, hardened):
    k = sh(('hdpub', s), lambda: HDPublicKey.from_string(s))
    return fields(k), attempt(lambda: fields(k.derive(i, hardened)))
args('hd_public', lambda m: ((lambda s: s if m.rng.random() < .7 else near_text(m.rng, s))(m.hd.public().text()), m.indices, m.flag))


# -- scripts -----------------------------------------------------------------------------------------------

@op(5)
def script_parse(sh, b):
    s = scr(sh, b)
    out = [fields(s), s.to_bytes(), s.to_hex(), attempt(s.to_string), s.to_hash(), s.is_push_only(), s.is_script_hash_out(),
           [x if x == 'PUSH' else x.number for x in s.get_structure()], s == Script.from_bytes(b), repr(s)]
    for n in ('get_public_keys', 'get_min_signatures', 'get_signatures', 'get_script_hash', 'get_address_hash', 'get_data', 'get_script'):
        if hasattr(s, n):
            r = attempt(getattr(s, n))
            out.append([fields(x) for x in take(r)] if isinstance(r, list) else fields(r))
    return out
args('script_parse', lambda m: (m.scripts,))


@op(2)
def script_truncated(sh, b):
    return attempt(lambda: fields(Script.from_bytes(b)))
args('script_truncated', lambda m: (lambda b: (b[:m.rng.randrange(len(b) + 1)],))(m.scripts))


@op(3)
def script_text(sh, t):
    s = attempt(Script.from_string, t)
    return (fields(s), s.to_string()) if isinstance(s, Script) else s
args('script_text', lambda m: (m.rng.choice(('OP_DUP OP_HASH160 3 0x010203', 'OP_1 OP_PUSHDATA1 2 0x0001', 'OP_1 OP_PUSHDATA1 3 0x0001', 'OP_FALSE', 'OP_NOPE', '5 0x00', '', 'OP_0 1 0x05')),))


@op(2)
def script_build(sh, h, qs, m_, data):
    a = Address(h)
    r = RedeemMultisig.create([PublicKey(q) for q in qs], m_)
    return (fields(PayToPubkeyOut.create(a)), fields(r), fields(PayToScriptOut.create(r)), fields(OpReturnOut.create(data)),
            fields(PayToScriptIn.create(r, [data, data])), fields(PayToPubkeyIn.create(PublicKey(qs[0]), data)),
            fields(Script.compile([data, Opcode(97), 118, (Opcode(76), data)])))
args('script_build', lambda m: (m.hashes, (m.points, m.points), m.rng.choice((1, 2)), m.blobs or b'x'))


@op(6)
def interpret(sh, sig, pub, fl, txb, nin):
    it = Interpreter()
    tx = trans(sh, txb) if txb else None
    v = it.verify(scr(sh, sig), scr(sh, pub), tx, nin if tx is not None and nin < len(tx.inputs) else 0, fl)
    return v, it.errstr, [bytes(x) for x in it.stack], [bytes(x) for x in it.altstack]


def _int(m):
    a, b, f = m.programs
    if m.rng.random() < .3:
        b = m.programs[1]
    return a, b, f if m.rng.random() < .7 else m.programs[2], m.txs if m.flag else None, m.rng.randrange(2)
args('interpret', _int)


@op(3)
def opcode(sh, n):
    o = sh(('op', n), lambda: Opcode(n))
    return (o.name, o.is_push(), o.is_number(), o.is_const_push(), o.is_var_push(), o.bytes, attempt(o.number_value), repr(o), Opcode.data_length_max(o), attempt(Opcode.data_length_nbytes, o),
            o == Opcode(n), hash(o) == hash(Opcode(n)), o < Opcode(80), o >= Opcode(97))
args('opcode', lambda m: (m.opcodes,))


@op(2)
def opcode_make(sh, name, n):
    return (attempt(lambda: Opcode.from_name(name).number), attempt(lambda: Opcode.push_for(n).number), attempt(lambda: Opcode.const_push_for(n).number),
            attempt(lambda: Opcode.var_push_for(n).number), attempt(lambda: Opcode.for_number(n).number), attempt(lambda: Opcode(n).number))
args('opcode_make', lambda m: (m.rng.choice(('OP_DUP', 'OP_TRUE', 'OP_1', 'OP_FALSE', 'OP_X', 'DUP', 'OP_PUSHDATA2')), m.rng.choice((0, 1, 16, 17, 75, 76, 255, 256, 65536, -1))))


# -- transactions ---------------------------------------------------------------------------------------------

@op(4)
def tx_parse(sh, b):
    t = trans(sh, b)
    return fields(t), t.to_bytes(), t.get_id(), t.get_id_bytes(), t.to_hex(), t == Transaction.from_bytes(b), hash(t) == hash(Transaction.from_bytes(b))
args('tx_parse', lambda m: (m.txs,))


@op(2)
def tx_truncated(sh, b):
    return attempt(lambda: fields(Transaction.from_bytes(b)))
args('tx_truncated', lambda m: (lambda b: (b[:m.rng.randrange(len(b))],))(m.txs))


@op(1)
def tx_sign(sh, txb, d, comp, kind, sigtype):
    t = trans(sh, txb)
    base = rtx.parse(txb)
    ti = t.inputs[0]
    if kind == 'address':
        h = codec.hash160(ec.sec(ec.gmul(d), comp))
        spk = b'\x76\xa9\x14' + h + b'\x88\xac'
        new = AddressInput.create(ti.tx_id, ti.txo_index, Address(h), ti.seq_number)
    else:
        qs = [ec.gmul(d), ec.gmul(7)]
        red = b'\x51' + b''.join(rs.push(ec.sec(q, comp)) for q in qs) + b'\x52\xae'
        spk = b'\xa9\x14' + codec.hash160(red) + b'\x87'
        new = MultisigInput.create(ti.tx_id, ti.txo_index, [PublicKey(q, networks.livenet, comp) for q in qs], 1, ti.seq_number)
    t2 = t.replace_inputs((new,) + (tuple(t.inputs[1:]) if sigtype == 1 else ()))
    keys = [key(sh, d, 'livenet', comp)]
    s = t2.sign(keys, 0, sigtype)
    p = rtx.parse(s.to_bytes())
    ok = rs.verify(p.vin[0].script, spk, p, 0, rs.P2SH | rs.STRICTENC | rs.LOW_S)[0]
    return ok, bytes([sigtype]) in p.vin[0].script, [x.key() for x in p.vin[1:]], [o.key() for o in p.vout], p.lock, p.version, new.can_sign(keys), t.to_bytes() == txb
args('tx_sign', lambda m: (m.txs, m.secrets, m.flag, m.rng.choice(('address', 'multisig')), m.rng.choice((1, 1, 0x81))))


@op(2)
def outputs(sh, amount, h, script, qs, data, red):
    a = Address(h, networks.livenet, Address.Type.Script if script else Address.Type.PublicKey)
    return (fields(AddressOutput.create(amount, a)), fields(ScriptOutput.create(amount, scr(sh, red))), fields(MultisigOutput.create(amount, [PublicKey(q) for q in qs], 1)),
            attempt(lambda: fields(DataOutput.create(data))), AddressOutput.create(amount, a).to_bytes(), fields(Output.create(amount, scr(sh, red))),
            fields(Input.create('ab' * 32, 3, scr(sh, red))))
args('outputs', lambda m: (m.amounts, m.hashes, m.flag, (m.points, m.points), m.blobs, m.scripts))


# -- codecs ---------------------------------------------------------------------------------------------------------

@op(4)
def codecs(sh, n, b):
    num = enc.encode_script_number(n)
    neg = enc.encode_script_number(-n)
    buf = Buffer(b)
    rest = attempt(buf.read, 3), bytes(buf), attempt(buf.read_varint), bytes(buf)
    return (enc.encode_int(n), enc.encode_int(n, big_endian=False), attempt(enc.encode_int, n, length=2), enc.encode_varint(n), take(num), take(neg),
            attempt(enc.decode_script_number, b), attempt(enc.decode_script_number, b, True, 5), enc.decode_int(b), enc.decode_int(b, big_endian=False), rest,
            enc.encode_hex(b), enc.encode_base58h(b), attempt(enc.decode_base58h, codec.b58check(b)), attempt(enc.decode_base58h, codec.b58enc(b)), attempt(enc.decode_hex, b.hex()[1:]),
            enc.hash160(b), enc.sha256(b), enc.ripemd160(b), enc.sha1(b), validate_signature(b), intbytes.to_bytes(n, 9), intbytes.from_bytes(b))
args('codecs', lambda m: (m.ints, m.blobs))


@op(4)
def helpers(sh, s, b):
    u = utils.encoding
    return (attempt(u.a2b_hashed_base58, s), attempt(u.is_hashed_base58_valid, s), attempt(u.is_valid_wif, s), attempt(u.is_valid_wif, s, [b'\xef']),
            attempt(u.wif_to_secret_exponent, s), attempt(u.is_valid_bitcoin_address, s), attempt(u.bitcoin_address_to_hash160_sec_with_prefix, s),
            attempt(u.sec_to_public_pair, b), attempt(u.is_sec_compressed, b), u.b2a_base58(b), u.b2a_hashed_base58(b), attempt(u.a2b_base58, s), u.hash160(b), u.double_sha256(b))


def _helpers(m):
    s = m.addresses if m.flag else codec.b58check(bytes([VERSIONS[m.net, 'wif']]) + m.secrets.to_bytes(32, 'big') + m.rng.choice((b'', b'\1')))
    return s if m.rng.random() < .6 else near_text(m.rng, s), m.blobs
args('helpers', _helpers)


@op(2)
def nets(sh, v, attr):
    r = attempt(networks.find, v, attr)
    return r if isinstance(r, tuple) and r and r[0] == 'raised' else r.name
args('nets', lambda m: m.rng.choice((('livenet', 'name'), ('testnet', 'name'), ('x', 'name'), (128, 'wif_prefix'), (0, 'pubkeyhash'), (5, 'scripthash'), (111, 'pubkeyhash'), (5, 'pubkeyhash'), (1, 'nope'))))


# -- money ------------------------------------------------------------------------------------------------------------

@op(3)
def unit(sh, n, kind):
    u = sh(('unit', n, kind), lambda: Unit(**{kind: n / {'satoshis': 1, 'bits': 1e2, 'mbtc': 1e5, 'btc': 1e8}[kind] if kind != 'satoshis' else n}))
    return u.satoshis, u.bits, u.mbtc, u.btc, str(u), repr(u), u.at_rate(250.5), Unit.from_fiat(n, 3.5).satoshis, (Unit.btc, Unit.mbtc, Unit.bits, Unit.satoshis)
args('unit', lambda m: (m.amounts, m.rng.choice(('satoshis', 'bits', 'mbtc', 'btc'))))


@op(3)
def uri(sh, a, n, msg, extra):
    d = {'address': a}
    if n is not None:
        d['amount'] = n
    if msg:
        d['message'] = msg
    d.update(extra)
    before = dict(d)
    u = URI(d)
    t = u.to_uri()
    v = URI(t)
    out = [t, fields(v.address), v.amount and v.amount.satoshis, getattr(v, 'message', None), getattr(v, 'label', None), take(v.extras), v is not u, d == before]
    p = URI.parse(t)
    out.append(sorted(take(p).items()))
    return out
args('uri', lambda m: (m.addresses, m.rng.choice((None, m.amounts, m.amounts)), m.rng.choice(('', 'hi', 'a b&c=é')), m.rng.choice(({}, {'x': '1'}, {'label': 'L', 'y': 'z'}))))


@op(2)
def uri_valid(sh, s):
    return URI.is_valid(s)
args('uri_valid', lambda m: (m.rng.choice(('bitcoin:', 'bitcoin:', 'Bitcoin:', 'x:', '')) + m.addresses + m.rng.choice(('', '?amount=1.5', '?amount=x', '?amount=nan', '?r=1', 'z')),))


# -- arithmetic ----------------------------------------------------------------------------------------------------------

CURVES = [(P, 0, 7), (23, 1, 1), (263, 2, 3), (23, 1, 4)]


@op(2)
def lowlevel_sign(sh, d, z):
    return lecdsa.sign(utils.generator_secp256k1, d, z)
args('lowlevel_sign', lambda m: (m.secrets, int.from_bytes(m.digests, 'big')))


@op(1)
def lowlevel_verify(sh, q, z, rsig):
    return bool(lecdsa.verify(utils.generator_secp256k1, q, z, rsig))
args('lowlevel_verify', lambda m: (m.points, int.from_bytes(m.digests, 'big'), m.sigs))


@op(1)
def recover(sh, z, rsig):
    return sorted(lecdsa.possible_public_pairs_for_signature(utils.generator_secp256k1, z, rsig))
args('recover', lambda m: (int.from_bytes(m.digests, 'big'), m.sigs))


@op(3)
def curve(sh, c, x, k):
    p, a, b = c
    E = sh(('curve', c), lambda: ellipticcurve.CurveFp(p, a, b))
    y = next((y for y in range(p) if (y * y - x**3 - a * x - b) % p == 0), None) if p < 1000 else ec.lift_x(x, 0) and ec.lift_x(x, 0)[1]
    if y is None:
        return None
    pt = sh(('pt', c, x), lambda: ellipticcurve.Point(E, x, y))
    def plain(q):
        return None if q == ellipticcurve.INFINITY else (q.x() % p, q.y() % p)
    return plain(pt * k), plain(pt + pt), plain(pt.double()), E.contains_point(x, y), E.contains_point(x, y + 1), str(E), repr(E)
args('curve', lambda m: (lambda c: (c, m.rng.choice((1, 3, 4, 5, 6, 9, 12)), m.rng.choice((1, 2, 3, 5, 28, 1000))))(m.rng.choice(CURVES)))


@op(3)
def modular(sh, a, p):
    return numbertheory.modular_sqrt(a % p, p) ** 2 % p, numbertheory.inverse_mod(a % p or 1, p), numbertheory.legendre_symbol(a % p, p) if hasattr(numbertheory, 'legendre_symbol') else None
args('modular', lambda m: (m.rng.choice((2, 3, 5, 10, 12345)), m.rng.choice((7, 11, 13, 17, 97, P))))


@op(2)
def pub_of_x(sh, x, even):
    return attempt(utils.public_pair_for_x, utils.generator_secp256k1, x, even)
args('pub_of_x', lambda m: (m.points[0], m.flag))


HEAVY = {'priv_public', 'priv_address', 'priv_sign', 'priv_verify', 'hd_seed', 'hd_text', 'hd_public', 'tx_sign', 'lowlevel_sign', 'lowlevel_verify', 'recover'}


def run(call, sh):
    """Result of a plain call with the object getter sh, or the error it ended with."""
    name, a = call
    try:
        return ('ok', OPS[name][0](sh, *a))
    except (MemoryError, RecursionError):
        raise
    except Exception as e:
        if type(e).__name__ == 'Injected':
            raise
        return ('raised', type(e).__qualname__, str(e)[:300])


def fresh(key, thunk):
    return thunk()


class Shared:
    """Objects created once and used by many operations (and threads)."""
    def __init__(self):
        self.d = {}

    def __call__(self, key, thunk):
        v = self.d.get(key)
        if v is None:
            v = self.d[key] = thunk()
        return v
