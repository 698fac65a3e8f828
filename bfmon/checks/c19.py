from ..lib import *
from bitforge.script import PayToPubkeyIn, PayToPubkeyOut, PayToScriptIn, PayToScriptOut, RedeemMultisig, OpReturnOut
from . import c11, c12, c17

ID = 'C19'
RULE = ('every kind of value built in several ways from the same data, and its neighbours that differ in one datum; attempts to change each field, its containers and the lists it was '
        'built from, and every public method; non-trivial: distinct value')
ASSUMPTIONS = ['basic properties are the named fields; an Opcode inside an instruction is a separate object', 'byte-string arguments are bytes']


class Kind:
    """same: ways to build one value; other: values that differ in one datum; fields: its basic properties."""
    def __init__(self, name, fields, same, other, lists=()):
        self.name, self.fields, self.same, self.other, self.lists = name, fields, same, other, lists


def other_of(rng, seq, x):
    return rng.choice([y for y in seq if y != x])


def private(ctx, rng):
    d, net, c = gen.secret(rng), rng.choice(NETS), rng.random() < .5
    raw = d.to_bytes(32, 'big')
    wif = codec.b58check(bytes([VERSIONS[net, 'wif']]) + raw + (b'\1' if c else b''))
    n = NET[net]
    same = [lambda: PrivateKey(d, n, c), lambda: PrivateKey(d, net, c), lambda: PrivateKey.from_wif(wif), lambda: PrivateKey.from_hex(raw.hex(), n, c), lambda: PrivateKey.from_bytes(raw, net, c),
            lambda: PrivateKey(secret=d, compressed=c, network=n)]
    d2 = rng.choice([x for x in (d - 1, d + 1, N - d, d ^ 1 << rng.randrange(256), gen.secret(rng)) if 0 < x < N and x != d])
    other = [lambda: PrivateKey(d2, n, c), lambda: PrivateKey(d, NET[other_of(rng, NETS, net)], c), lambda: PrivateKey(d, n, not c)]
    return Kind('PrivateKey', ('secret', 'network', 'compressed'), same, other)


def public(ctx, rng):
    q, net, c = points(rng), rng.choice(NETS), rng.random() < .5
    n, raw = NET[net], ec.sec(q, c)
    lst = list(q)
    same = [lambda: PublicKey(q, n, c), lambda: PublicKey(lst, net, c), lambda: PublicKey.from_bytes(raw, n), lambda: PublicKey.from_hex(raw.hex(), net), lambda: PublicKey.from_bytes(bytearray(raw), n)]
    if rng.random() < .02:
        d = gen.secret(rng)
        q = ec.gmul(d)
        raw = ec.sec(q, c)
        lst = list(q)
        same += [lambda: PrivateKey(d, n, c).to_public_key(), lambda: PublicKey.from_private_key(PrivateKey(d, net, c))]
        ctx.event('public key from private key')
    other = [lambda: PublicKey(ec.neg(q), n, c), lambda: PublicKey(ec.add(q, ec.G) or ec.gmul(2), n, c), lambda: PublicKey(q, NET[other_of(rng, NETS, net)], c), lambda: PublicKey(q, n, not c)]
    return Kind('PublicKey', ('pair', 'network', 'compressed'), same, other, [(lst, lambda l: l.__setitem__(rng.randrange(2), 1))])


def address(ctx, rng):
    h, net, typ = gen.fill(rng, 20), rng.choice(NETS), rng.choice(('pub', 'script'))
    n = NET[net]
    T = {'pub': Address.Type.PublicKey, 'script': Address.Type.Script}
    raw = bytes([VERSIONS[net, typ]]) + h
    same = [lambda: Address(h, n, T[typ]), lambda: Address(h, net, T[typ]), lambda: Address.from_string(codec.b58check(raw)), lambda: Address.from_bytes(raw), lambda: Address.from_hex(raw.hex())]
    h2 = bytearray(h)
    h2[rng.randrange(20)] ^= 1 << rng.randrange(8)
    other = [lambda: Address(bytes(h2), n, T[typ]), lambda: Address(h, NET[other_of(rng, NETS, net)], T[typ]), lambda: Address(h, n, T[other_of(rng, list(T), typ)])]
    return Kind('Address', ('phash', 'network', 'type'), same, other)


def instr(o, d):
    return Instruction(Opcode(o), d)


def instruction(ctx, rng):
    o, d = rng.choice(gen.ops(rng, 1, push_p=.7))
    same = [lambda: instr(o, d), lambda: Instruction(opcode=Opcode(o), data=d), lambda: Script.from_bytes(rs.serialize([(o, d)])).instructions[0], lambda: Script.from_string(rs_text(o, d)).instructions[0]]
    if d is not None:
        d2 = bytearray(d) or bytearray(b'\1')
        d2[rng.randrange(len(d2))] ^= 1 << rng.randrange(8)
        o2 = o if d else 76
        other = [lambda: instr(o2, bytes(d2)), lambda: instr(78 if o != 78 else 77, d), lambda: instr(97, None)]
    else:
        other = [lambda: instr(other_of(rng, [x for x in gen.NAMED if not 1 <= x <= 78], o), None), lambda: instr(1, bytes([o]))]
        if rng.random() < .3:       # opcodes without a name are told apart by their number
            x = rng.randrange(186, 253)
            o = x
            same = [lambda: instr(x, None), lambda: Instruction(opcode=Opcode(x), data=None), lambda: Script.from_bytes(bytes([x])).instructions[0]]
            other = [lambda: instr(other_of(rng, list(range(186, 253)) + [80, 97, 185], x), None), lambda: instr(186 + (x - 185) % 67, None), lambda: instr(1, bytes([x]))]
    return Kind('Instruction', ('opcode', 'data'), same, other)


def rs_text(o, d):
    if d is None:
        return rs.NAMES[o]
    return ('%d 0x%s' % (len(d), d.hex())) if o < 76 else '%s %d 0x%s' % (rs.NAMES[o], len(d), d.hex())


def ops_of(rng):
    return c11.standard_ops(rng) if rng.random() < .5 else gen.ops(rng, rng.randrange(1, 10))


def change_ops(rng, ops):
    ops = list(ops)
    p = rng.randrange(len(ops))
    k = rng.randrange(4)
    if k == 0:
        del ops[p]
    elif k == 1:
        ops.insert(p, (97, None))
    elif k == 2 and ops[p][1]:
        d = bytearray(ops[p][1])
        d[rng.randrange(len(d))] ^= 1
        ops[p] = (ops[p][0], bytes(d))
    else:
        ops[p] = (97, None) if ops[p][0] != 97 else (98 - 1 + 8, None)
    return ops


def script(ctx, rng):
    ops = ops_of(rng)
    b = rs.serialize(ops)
    lst = [instr(*x) for x in ops]
    same = [lambda: Script(lst), lambda: Script(tuple(lst)), lambda: Script(iter(lst)), lambda: Script.create(lst), lambda: Script.from_bytes(b), lambda: Script.from_bytes(bytearray(b)),
            lambda: Script.from_string(' '.join(rs_text(*x) for x in ops))]
    b2 = rs.serialize(change_ops(rng, ops))
    other = [lambda: Script.from_bytes(b2), lambda: Script.from_bytes(b + b'\x61'), lambda: Script()]
    return Kind('Script', ('instructions',), same, other, [(lst, mutate_list(rng))])


def mutate_list(rng):
    def f(l):
        k = rng.randrange(4)
        if k == 0:
            l.append(l[0])
        elif k == 1:
            del l[rng.randrange(len(l))]
        elif k == 2:
            l.reverse()
            l.append(l[0])
        else:
            l[:] = []
    return f


def builders(ctx, rng):
    """Standard scripts: the builder and the parsed bytes give equal values."""
    k = rng.randrange(5)
    h = gen.fill(rng, 20)
    lst = []
    if k == 0:
        g, q = gen.fill(rng, 71), points(rng)
        f, b = lambda: PayToPubkeyIn.create(PublicKey(q), g), rs.push(g) + rs.push(ec.sec(q))
    elif k == 1:
        f, b = lambda: PayToPubkeyOut.create(Address(h)), b'\x76\xa9\x14' + h + b'\x88\xac'
    elif k == 2:
        lst = [gen.fill(rng, 71) for _ in range(rng.randrange(1, 4))]
        r = c11.redeem(rng)
        f, b = lambda: PayToScriptIn.create(Script.from_bytes(r), lst), b'\0' + b''.join(map(rs.push, lst)) + rs.push(r)
    elif k == 3:
        f, b = lambda: OpReturnOut.create(h), b'\x6a' + rs.push(h)
    else:
        keys = [(points(rng), True) for _ in range(rng.randrange(1, 5))]
        lst = [PublicKey(*x[:1]) for x in keys]
        f, b = lambda: RedeemMultisig.create(lst, 1), c11.multisig_bytes(keys, 1)
    same = [f, lambda: Script.from_bytes(b), lambda: Script.from_string(Script.from_bytes(b).to_string())]
    b2 = rs.serialize(change_ops(rng, rs.parse(b)))
    return Kind('standard script', ('instructions',), same, [lambda: Script.from_bytes(b2)], [(lst, mutate_list(rng))] if lst else ())


def input_(ctx, rng):
    t = c12.rin(rng)
    tid, s = t.prev[::-1].hex(), Script.from_bytes(t.script)
    raw = t.ser() if hasattr(t, 'ser') else None
    same = [lambda: Input(tid, t.index, s, t.seq), lambda: Input.create(tid, t.index, Script.from_bytes(t.script), t.seq), lambda: Input(tx_id=tid, txo_index=t.index, script=s, seq_number=t.seq),
            lambda: Input.from_bytes(bytes_in(t)), lambda: Input.from_hex(bytes_in(t).hex()), lambda: Input(tid, t.index, Script(), t.seq).replace_script(s)]
    p2 = bytearray(t.prev)
    p2[rng.randrange(32)] ^= 1 << rng.randrange(8)
    other = [lambda: Input(bytes(p2)[::-1].hex(), t.index, s, t.seq), lambda: Input(tid, t.index ^ 1 << rng.randrange(32), s, t.seq), lambda: Input(tid, t.index, s, t.seq ^ 1 << rng.randrange(32)),
             lambda: Input(tid, t.index, Script.from_bytes(t.script + b'\x61'), t.seq)]
    return Kind('Input', ('tx_id', 'txo_index', 'script', 'seq_number'), same, other)


def bytes_in(t):
    return t.prev + t.index.to_bytes(4, 'little') + codec.varint(len(t.script)) + t.script + t.seq.to_bytes(4, 'little')


def bytes_out(o):
    return o.amount.to_bytes(8, 'little') + codec.varint(len(o.script)) + o.script


def output(ctx, rng):
    o = c12.rout(rng)
    s = Script.from_bytes(o.script)
    same = [lambda: Output(o.amount, s), lambda: Output.create(o.amount, Script.from_bytes(o.script)), lambda: Output.from_bytes(bytes_out(o)), lambda: Output.from_hex(bytes_out(o).hex())]
    other = [lambda: Output(o.amount ^ 1 << rng.randrange(64), s), lambda: Output(o.amount, Script.from_bytes(o.script + b'\x61'))]
    return Kind('Output', ('amount', 'script'), same, other)


def transaction(ctx, rng):
    t = c12.rtransaction(rng)
    mki = lambda x: Input(x.prev[::-1].hex(), x.index, Script.from_bytes(x.script), x.seq)
    mko = lambda x: Output(x.amount, Script.from_bytes(x.script))
    ins, outs = [mki(x) for x in t.vin], [mko(x) for x in t.vout]
    raw = t.ser()
    same = [lambda: Transaction(ins, outs, t.lock, t.version), lambda: Transaction(tuple(map(mki, t.vin)), iter(outs), version=t.version, lock_time=t.lock), lambda: Transaction.from_bytes(raw),
            lambda: Transaction.from_hex(raw.hex()), lambda: Transaction([mki(t.vin[0])], outs, t.lock, t.version).replace_inputs(ins)]
    more = c12.rin(rng)
    keep_i, keep_o = list(ins), list(outs)
    other = [lambda: Transaction(keep_i, keep_o, t.lock ^ 1 << rng.randrange(32), t.version), lambda: Transaction(keep_i, keep_o, t.lock, t.version ^ 1 << rng.randrange(32)), lambda: Transaction(keep_i + [mki(more)], keep_o, t.lock, t.version),
             lambda: Transaction(keep_i, keep_o + [mko(c12.rout(rng))], t.lock, t.version), lambda: Transaction([mki(more)] + keep_i[1:], keep_o, t.lock, t.version)]
    return Kind('Transaction', ('inputs', 'outputs', 'lock_time', 'version'), same, other, [(ins, mutate_list(rng)), (outs, mutate_list(rng))])


def hdpublic(ctx, rng):
    r = c17.node(rng, False)
    n = NET[r.net]
    same = [lambda: HDPublicKey(PublicKey(r.Q, n), r.chain, r.depth, r.index, r.parent, n), lambda: HDPublicKey.from_string(r.text())]
    q2 = ec.neg(r.Q)
    c2 = bytearray(r.chain)
    c2[rng.randrange(32)] ^= 1
    other = [lambda: HDPublicKey(PublicKey(q2, n), r.chain, r.depth, r.index, r.parent, n), lambda: HDPublicKey(PublicKey(r.Q, n), bytes(c2), r.depth, r.index, r.parent, n), lambda: HDPublicKey(PublicKey(r.Q, n), r.chain, r.depth ^ 1, r.index, r.parent, n),
             lambda: HDPublicKey(PublicKey(r.Q, n), r.chain, r.depth, r.index ^ 1, r.parent, n), lambda: HDPublicKey(PublicKey(r.Q, n), r.chain, r.depth, r.index, r.parent ^ 1, n)]
    return Kind('HDPublicKey', ('pubkey', 'chain', 'depth', 'index', 'parent', 'network', 'fingerprint'), same, other)


def hdprivate(ctx, rng):
    r = c17.node(rng)
    n = NET[r.net]
    same = [lambda: HDPrivateKey(PrivateKey(r.d, n), r.chain, r.depth, r.index, r.parent, n), lambda: HDPrivateKey.from_string(r.text())]
    other = [lambda: HDPrivateKey(PrivateKey(r.d, n), r.chain, r.depth, r.index ^ 1, r.parent, n), lambda: HDPrivateKey(PrivateKey(N - r.d, n), r.chain, r.depth, r.index, r.parent, n)]
    return Kind('HDPrivateKey', ('privkey', 'chain', 'depth', 'index', 'parent', 'network', 'fingerprint'), same, other)


def snap(v, depth=0):
    """A deep, independent copy of what a value holds."""
    if isinstance(v, (int, str, bytes, bool, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, bytearray):
        return ('bytearray', bytes(v))
    if isinstance(v, Opcode):
        return ('op', v.number)
    f = getattr(v, '_fields', None)
    if f:
        return (type(v).__name__,) + tuple((n, snap(getattr(v, n))) for n in f)
    if isinstance(v, (tuple, list)):
        return ('seq',) + tuple(map(snap, v))
    return repr(v)


def scribble(v):
    """Attempts to change a container in place."""
    for f in (lambda: v.append(v[0]), lambda: v.__setitem__(0, None), lambda: v.__delitem__(0), lambda: v.clear(), lambda: v.extend([None]), lambda: v.reverse(), lambda: v.insert(0, None), lambda: v.pop(),
              lambda: v.add(None), lambda: v.update({1: 2}), lambda: v.sort()):
        try:
            f()
        except Exception:
            pass


CHEAP_METHODS = ('to_bytes', 'to_hex', 'to_string', 'to_hash', 'get_structure', 'is_push_only', 'is_push', 'is_minimal_push', 'get_id', 'get_id_bytes', 'remove_script', 'to_wif', 'get_public_key', 'get_signature', 'get_address_hash',
                 'get_script', 'get_signatures', 'get_script_hash', 'get_data', 'get_public_keys', 'get_min_signatures', '__repr__', '__str__', '__hash__', 'is_script_hash_out')
DEAR_METHODS = ('to_public_key', 'to_private_key', 'to_address', 'to_hd_public_key')


FOREIGN = (None, 0, 1, 'text', b'\0', object(), [1], 3.5, Opcode(0x61), {})


def value(ctx, rng, k, dear=False):
    rng.shuffle(k.same)
    objs = [ctx.ok('build ' + k.name, f) for f in k.same]
    a = objs[0]
    s0 = [snap(o) for o in objs]
    # equality and hash of everything built from the same data
    h = ctx.ok('hash', hash, a)
    for o in objs[1:]:
        ctx.true(o == a and a == o and not o != a and not a != o, '%s: two objects built from the same data are unequal: %r, %r' % (k.name, a, o))
        ctx.eq(ctx.ok('hash', hash, o), h, '%s: hashes of equal objects' % k.name)
    ctx.eq(len(set(objs)), 1, k.name + ': set of equal objects')
    ctx.eq({a: 7}.get(objs[-1]), 7, k.name + ': dictionary lookup')
    for f in k.other:
        b = ctx.ok('build other ' + k.name, f)
        ctx.true(b != a and a != b and not b == a and not a == b, '%s: objects with different data compare equal: %r, %r' % (k.name, a, b))
        ctx.eq(len({a, b}), 2, k.name + ': set of different objects')
    for b_ in FOREIGN:
        ctx.true(ctx.ok('== other type', lambda: a == b_) is False and ctx.ok('!= other type', lambda: a != b_) is True and ctx.ok('== other type', lambda: b_ == a) is False,
                 '%s equals %r: %r' % (k.name, b_, a))
    # the lists it was built from
    for lst, change in k.lists:
        change(lst)
        ctx.eq([snap(o) for o in objs], s0, k.name + ' after a list it was built from was changed')
        ctx.event('list changed')
    # assignment
    for o in rng.sample(objs, min(2, len(objs))):
        before = snap(o)
        for f in k.fields:
            v = getattr(o, f)
            for w in (v, None, b.__getattribute__(f)):
                for what, g in (('setattr', lambda: setattr(o, f, w)), ('delattr', lambda: delattr(o, f))):
                    c = ctx.call(what, g)
                    ctx.true(not c.ok, '%s.%s can be %s' % (k.name, f, 'assigned' if what == 'setattr' else 'deleted'))
            scribble(v)
            ctx.event('field attempted')
        for j in range(len(k.fields)):
            ctx.raises(None, 'setitem', lambda: o.__setitem__(j, None))
        scribble(o)
        ctx.eq(snap(o), before, k.name + ' after attempts to change it')
        ctx.eq(ctx.ok('hash', hash, o), h, k.name + ': hash after attempts to change it')
        # methods
        for m in rng.sample(CHEAP_METHODS, len(CHEAP_METHODS)) + (list(DEAR_METHODS) if dear else []):
            f = getattr(o, m, None)
            if callable(f):
                c = ctx.call(m, f)
                if c.ok and isinstance(c.value, (list, bytearray)):
                    scribble(c.value)
        for m, args in (('replace_script', (Script(),)), ('replace_inputs', ([],)), ('push_data', (b'\1',)), ('remove_opcode_by_data', (b'\1',)), ('can_sign', ([],)), ('sign', ([], 0)), ('sign', ([], b'\0' * 32)), ('derive', (0, True))):
            f = getattr(o, m, None)
            if callable(f) and (dear or m not in ('derive', 'sign')):
                ctx.call(m, f, *args)
        ctx.eq(snap(o), before, k.name + ' after method calls')
        ctx.true(o == a and hash(o) == h, k.name + ': equality and hash after method calls')
    for o in objs[:2]:
        t = ctx.ok('repr', repr, o)
        ctx.true(isinstance(t, str) and t, 'repr of ' + k.name)
        ctx.true(isinstance(ctx.ok('str', str, o), str), 'str of ' + k.name)
        ctx.ok('format', lambda: '{0} {0!r}'.format(o))
    ctx.event('value ' + k.name)
    ctx.seen(k.name, s0[0])
    ctx.sample(kind=k.name, value=a)


MAKERS = [private, public, address, instruction, script, builders, input_, output, transaction, hdpublic]


def values(ctx, rng, i):
    value(ctx, rng, MAKERS[i // 8 % len(MAKERS)](ctx, rng), rng.random() < .01)


def dear(ctx, rng, i):
    value(ctx, rng, rng.choice((hdprivate, hdprivate, private, public, hdpublic))(ctx, rng), True)


def networks_(ctx, rng, i):
    for name in NETS:
        n = NET[name]
        ctx.ok('hash', hash, n)
        for f in n._fields:
            ctx.true(not ctx.call('setattr', setattr, n, f, None).ok, 'network %s can be assigned' % f)
        ctx.true(networks.find(name) is n, 'network ' + name)


SECTIONS = [('values', values, 16000, 240000), ('dear', dear, 160, 3000), ('networks', networks_, 16, 160)]
REQUIRE = {'value PrivateKey': 300, 'value PublicKey': 300, 'value Address': 300, 'value Instruction': 300, 'value Script': 300, 'value standard script': 300, 'value Input': 300, 'value Output': 300, 'value Transaction': 300,
           'value HDPublicKey': 300, 'value HDPrivateKey': 30, 'setattr*': 10000, 'list changed': 2000, 'field attempted': 10000}
