from ..lib import *

ID = 'C09'
RULE = ('well-formed scripts of all 256 opcodes with minimal and wasteful pushes of boundary lengths (0..65537 bytes), their truncations and '
        'mutations, instruction lists and compile schematics; non-trivial: distinct script bytes or candidate')


def as_ops(script):
    return [(ins.opcode.number, None if ins.data is None else bytes(ins.data)) for ins in script.instructions]


def check_script(ctx, s, b, ops, what):
    ctx.true(isinstance(s, Script), what + ' is a Script')
    ctx.eq(as_ops(s), ops, what + ': instructions')
    ctx.eq(ctx.ok('to_bytes', s.to_bytes), b, what + ': bytes')
    ctx.eq(ctx.ok('to_hex', s.to_hex), b.hex(), what + ': hex')
    ctx.eq(bool(ctx.ok('is_push_only', s.is_push_only)), all(o <= 96 for o, _ in ops), what + ': is_push_only')
    ctx.eq(b''.join(ins.to_bytes() for ins in s.instructions), b, what + ': instruction bytes')


def instr(o, d):
    return Instruction(Opcode(o), d) if d is not None else Instruction(Opcode(o))


def judge(ctx, b):
    want = rs.parse(b)
    if want is None:
        ctx.raises(BitforgeError, 'truncated', Script.from_bytes, b)
    else:
        s = ctx.ok('from_bytes', Script.from_bytes, b)
        check_script(ctx, s, b, want, 'parsed')
    return want


def wellformed(ctx, rng, i):
    ops = gen.ops(rng, rng.randrange(14), named=False, top=rng.choice((80, 80, 600)))
    b = rs.serialize(ops)
    s = ctx.ok('from_bytes', Script.from_bytes, rng.choice((bytes, bytes, bytearray))(b))
    check_script(ctx, s, b, ops, 'parsed')
    t = ctx.ok('Script', Script, [instr(o, d) for o, d in ops])
    check_script(ctx, t, b, ops, 'constructed')
    ctx.eq(t, ctx.ok('from_bytes', Script.from_bytes, t.to_bytes()), 'reparsed script')
    ctx.eq(s, t, 'parsed and constructed script')
    ctx.eq(ctx.ok('from_bytes', Script.from_bytes, s.to_bytes()), s, 'reparsed script')
    c = ctx.ok('compile', Script.compile, [schematic(rng, o, d) for o, d in ops])
    check_script(ctx, c, b, ops, 'compiled')
    ctx.seen('w', b)
    ctx.sample(script=b)


def schematic(rng, o, d):
    if d is None:
        return Opcode(o) if rng.random() < .6 else o
    return (Opcode(o) if rng.random() < .5 else o, d)


def single(ctx, rng, i):
    """Each opcode alone, first and last."""
    o = i % 256
    d = None
    if 1 <= o <= 75:
        d = gen.fill(rng, o)
    elif o in (76, 77, 78):
        n = rng.choice((0, 1, 75, 76, 255) + ((256, 65535, 300) if o > 76 else ()) + ((65536,) if o > 77 else ()))
        d = gen.fill(rng, n)
    other = gen.ops(rng, rng.randrange(3))
    for ops in ([(o, d)], [(o, d)] + other, other + [(o, d)]):
        b = rs.serialize(ops)
        judge(ctx, b)
        if d is not None:
            for cut in {1, 2, len(d), len(d) // 2 + 1} if ops[-1] == (o, d) else ():
                if 0 < cut <= len(b):
                    judge(ctx, b[:-cut])
    ctx.seen('1', o, d)


def truncated(ctx, rng, i):
    ops = gen.ops(rng, rng.randrange(1, 6), named=False, push_p=.7)
    b = rs.serialize(ops)
    for n in range(min(len(b), 90)):
        judge(ctx, b[:n])
        ctx.seen('t', b[:n])
    for n in range(max(0, len(b) - 5), len(b)):
        judge(ctx, b[:n])
    for _ in range(4):
        m = gen.mutate(rng, b)
        judge(ctx, m)
        ctx.seen('t', m)
    judge(ctx, rng.randbytes(rng.randrange(60)))
    o = rng.choice((76, 77, 78))
    w = {76: 1, 77: 2, 78: 4}[o]
    n = rng.choice((1, 2, 75, 200, 255)) if w == 1 else rng.choice((1, 255, 256, 65535)) if w == 2 else rng.choice((1, 65536, 2**24, 2**31, 2**32 - 1))
    judge(ctx, bytes([o]) + n.to_bytes(w, 'little') + bytes(rng.randrange(min(n, 300))))
    judge(ctx, bytes([o]) + bytes(rng.randrange(w)))


def big(ctx, rng, i):
    n = (254, 255, 256, 257, 519, 520, 521, 65534, 65535, 65536, 65537, 70000, 131072, rng.randrange(60000, 140000))[i % 14]
    d = gen.fill(rng, n)
    for o in (76, 77, 78):
        cap = {76: 255, 77: 65535, 78: 2**32 - 1}[o]
        if n > cap:
            ctx.raises(Instruction.Error, 'bad-instruction', Instruction, Opcode(o), d)
            continue
        ops = [(o, d)] + gen.ops(rng, 2)
        b = rs.serialize(ops)
        s = ctx.ok('from_bytes', Script.from_bytes, b)
        check_script(ctx, s, b, ops, 'parsed')
        ctx.raises(BitforgeError, 'truncated', Script.from_bytes, rs.serialize([(o, d)])[:-1 - rng.randrange(3)])
    check_compile(ctx, d)
    ctx.seen('b', d)


def long(ctx, rng, i):
    """Very many instructions."""
    n = rng.choice((10000, 10001, 32768, 65535, 65536, 65537, 100001, 140000))
    unit = gen.ops(rng, 3, top=4) or [(81, None)]
    ops = (unit * (n // len(unit) + 1))[:n]
    b = rs.serialize(ops)
    s = ctx.ok('from_bytes', Script.from_bytes, b)
    ctx.eq(len(s.instructions), n, 'number of instructions')
    ctx.eq(ctx.ok('to_bytes', s.to_bytes), b, 'bytes of %d instructions' % n)
    if n < 70000 or i % 3 == 0:
        t = ctx.ok('compile', Script.compile, [Opcode(o) if d is None else (Opcode(o), d) for o, d in ops])
        ctx.eq(ctx.ok('to_bytes', t.to_bytes), b, 'bytes of %d compiled instructions' % n)
    ctx.event('many instructions')


def check_compile(ctx, d):
    want = rs.push(d)
    s = ctx.ok('compile', Script.compile, [d])
    ctx.eq(ctx.ok('to_bytes', s.to_bytes), want, 'compiled push of %d bytes' % len(d))
    ctx.eq(ctx.ok('push_for', Instruction.push_for, d).to_bytes(), want, 'push_for of %d bytes' % len(d))
    ctx.eq(bytes(s.instructions[0].data), d, 'pushed data')


def compiled(ctx, rng, i):
    n = i % 300 + 1 if rng.random() < .7 else rng.choice((1, 74, 75, 76, 77, 254, 255, 256, 257, 519, 520, 521, 1000, 4000))
    check_compile(ctx, gen.fill(rng, n))
    items, want = [], b''
    for _ in range(rng.randrange(1, 8)):
        if rng.random() < .5:
            d = gen.fill(rng, rng.randrange(1, 300))
            items.append(d)
            want += rs.push(d)
        else:
            (o, d), = gen.ops(rng, 1, named=False)
            items.append(schematic(rng, o, d))
            want += rs.ser_op(o, d)
    keep = list(items)
    s = ctx.ok('compile', Script.compile, rng.choice((list, tuple))(items))
    check_script(ctx, s, want, rs.parse(want), 'compiled')
    ctx.true(items == keep, 'compile changed its argument')
    ctx.seen('c', want)
    for bad in ('text', None, [1], 3.5 if rng.random() < .5 else object()):
        p = rng.randrange(len(items) + 1)
        ctx.raises(None, 'bad-compile', Script.compile, items[:p] + [bad] + items[p:])


def instruction(ctx, rng, i):
    o = i % 256
    n = rng.choice((0, 1, o, o + 1, max(0, o - 1), 75, 76, 255, 256, rng.randrange(600)))
    d = gen.fill(rng, n)
    push = 1 <= o <= 78
    valid = (n == o) if o <= 75 else n <= 255 if o == 76 else True
    if not push:
        ctx.raises(Instruction.UnexpectedData, 'bad-instruction', Instruction, Opcode(o), d)
        ins = ctx.ok('Instruction', Instruction, Opcode(o))
        ctx.true(ins.data is None and not ins.is_push(), 'plain instruction')
        ctx.eq(ctx.ok('ins.to_bytes', ins.to_bytes), bytes([o]), 'bytes')
    elif not valid:
        ctx.raises(Instruction.InvalidDataLength, 'bad-instruction', Instruction, Opcode(o), d)
    else:
        ins = ctx.ok('Instruction', Instruction, Opcode(o), d)
        ctx.true(ins.is_push(), 'push instruction')
        ctx.eq(ctx.ok('ins.to_bytes', ins.to_bytes), rs.ser_op(o, d), 'bytes')
        ctx.eq(ctx.ok('ins.to_hex', ins.to_hex), rs.ser_op(o, d).hex(), 'hex')
        ctx.eq(bool(ctx.ok('is_minimal_push', ins.is_minimal_push)), rs.minimal_push(o, d), 'is_minimal_push of %s' % rs.ser_op(o, d)[:40].hex())
        if n == 1:
            for v in range(256):
                ins = Instruction(Opcode(o), bytes([v]))
                ctx.eq(bool(ctx.ok('is_minimal_push', ins.is_minimal_push)), rs.minimal_push(o, bytes([v])), 'is_minimal_push of %d %02x' % (o, v))
    for bad in (o, 'OP_DUP', None, bytes([o])):
        ctx.raises(Instruction.Error, 'bad-instruction', Instruction, bad)
    ctx.seen('i', o, d)


SECTIONS = [('long', long, 16, 160), ('wellformed', wellformed, 12000, 240000), ('single', single, 3072, 60000), ('truncated', truncated, 2400, 48000), ('big', big, 112, 1400),
            ('compiled', compiled, 6000, 120000), ('instruction', instruction, 6144, 120000)]
REQUIRE = {'from_bytes': 20000, 'truncated*': 5000, 'compile': 10000, 'bad-instruction*': 5000, 'Instruction': 1500}
