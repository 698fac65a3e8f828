from ..lib import *
from bitforge.script import opcode as table

ID = 'C28'
RULE = ('all 256 opcodes, all pairs, all names, and all queries, exhaustively and in random order; arguments outside every domain; push lengths around every boundary; '
        'non-trivial: distinct query')
PUSH_LIMIT = {76: 0xff, 77: 0xffff, 78: 0xffffffff}


def queries(ctx, rng, i):
    n = rng.randrange(256) if i >= 512 else i % 256
    o = ctx.ok('Opcode', Opcode, n)
    ctx.eq(o.number, n, 'number')
    const, var = 1 <= n <= 75, n in PUSH_LIMIT
    todo = list(range(10))
    rng.shuffle(todo)
    for q in todo:
        if q == 0:
            if n in rs.NAMES:
                ctx.eq(ctx.ok('name', lambda: o.name), rs.NAMES[n], 'name of %d' % n)
                back = ctx.ok('from_name', Opcode.from_name, o.name)
                ctx.true(isinstance(back, Opcode) and back == o and back.number == n and hash(back) == hash(o), 'from_name(%s)' % o.name)
            else:
                name = ctx.ok('name', lambda: o.name)
                ctx.true(isinstance(name, str) and name and name not in rs.OPS, 'name of %d: %r' % (n, name))
        elif q == 1:
            ctx.eq(ctx.ok('bytes', lambda: o.bytes), bytes([n]), 'bytes of %d' % n)
        elif q == 2:
            ctx.eq([bool(ctx.ok('is_push', f)) for f in (o.is_push, o.is_const_push, o.is_var_push)], [const or var, const, var], 'push kind of %d' % n)
        elif q == 3:
            ctx.eq(ctx.ok('data_length_max', Opcode.data_length_max, o), n if const else PUSH_LIMIT.get(n, 0), 'push capacity of %d' % n)
        elif q == 4:
            if var:
                ctx.eq(ctx.ok('data_length_nbytes', Opcode.data_length_nbytes, o), {76: 1, 77: 2, 78: 4}[n], 'length bytes of %d' % n)
            else:
                ctx.raises(Opcode.WrongOpcodeType, 'bad-nbytes', Opcode.data_length_nbytes, o)
        elif q == 5:
            num = n == 0 or 81 <= n <= 96
            ctx.eq(bool(ctx.ok('is_number', o.is_number)), num, 'is_number of %d' % n)
            if num:
                v = ctx.ok('number_value', o.number_value)
                ctx.eq(v, n and n - 80, 'number_value of %d' % n)
                ctx.eq(ctx.ok('for_number', Opcode.for_number, v), o, 'for_number(%d)' % v)
                ctx.eq(ctx.ok('for_number', Opcode.for_number, v).number, n, 'for_number(%d)' % v)
            else:
                ctx.raises(Opcode.WrongOpcodeType, 'bad-number_value', o.number_value)
        elif q == 6:
            t = ctx.ok('repr', repr, o)
            ctx.true(isinstance(t, str) and str(n) in t, 'repr of %d: %r' % (n, t))
        elif q == 7:
            m = rng.randrange(256)
            p = Opcode(m)
            compare(ctx, o, p, n, m)
        elif q == 8:
            ctx.true(not (o == n) and o != n and not (o == None) and o != bytes([n]) and o != rs.NAMES.get(n, 'x'), 'opcode %d compared with other objects' % n)
        else:
            ctx.true(ctx.ok('hash', hash, o) == hash(Opcode(n)) and {o: 1}.get(Opcode(n)) == 1, 'hash of %d' % n)
    ctx.seen('q', n)


def compare(ctx, o, p, n, m):
    got = [bool(x) for x in (o == p, o != p, o < p, o <= p, o > p, o >= p)]
    ctx.eq(got, [n == m, n != m, n < m, n <= m, n > m, n >= m], 'comparison of %d and %d' % (n, m))
    ctx.event('compared')


def pairs(ctx, rng, i):
    n = i % 256
    o = Opcode(n)
    for m in range(256):
        compare(ctx, o, Opcode(m), n, m)
    ctx.eq([x.number for x in ctx.ok('sorted', sorted, [Opcode(m) for m in rng.sample(range(256), 256)])], list(range(256)), 'sorted opcodes')


def names(ctx, rng, i):
    """Every name, aliases included, as module constant and through from_name."""
    for name, n in rng.sample(sorted(rs.OPS.items()), len(rs.OPS)):
        c = getattr(table, name, None)
        ctx.true(isinstance(c, Opcode) and c.number == n and c == Opcode(n), '%s is %r' % (name, c))
        o = ctx.ok('from_name', Opcode.from_name, name)
        ctx.true(isinstance(o, Opcode) and o.number == n, 'from_name(%s) is %r' % (name, o))
        ctx.event('names')
        ctx.seen('n', name)


def bad_names(ctx, rng, i):
    for _ in range(4):
        k = rng.randrange(6)
        base = rng.choice(sorted(rs.OPS))
        s = (rng.choice(('OP_', 'OP_UNKNOWN', 'OP', '', 'op_dup', 'OP_17', 'OP_-1', 'OP_NOP2', 'OP_PUSHDATA3', 'OP_PUSHDATA', 'Opcode', '_PUSH_5_BYTES', 'OP_00', 'OP_01', 'OP_1 ', ' OP_1', 'OP_CHECKSIG\n', 'OP_NUMBER', 'OP__module'))
             if k == 0 else gen.mutate_text(rng, base) if k == 1 else base[3:] if k == 2 else base.lower() if k == 3 else 'OP_' + gen.text(rng, 12) if k == 4 else gen.text(rng, 20))
        if s in rs.OPS or s == 'OP_NOP2':
            continue
        ctx.raises(Opcode.UnknownOpcodeName, 'bad-name', Opcode.from_name, s)
        ctx.seen('b', s)


def numbers(ctx, rng, i):
    n = rng.choice((-1, 256, 257, -255, 511, 1000, -256, 2**31, -2**63, 2**64, 10**6, rng.randrange(256, 10**9), -rng.randrange(1, 10**9)))
    e = ctx.raises(Opcode.UnknownOpcodeNumber, 'bad-number', Opcode, n)
    ctx.true(str(n) in str(e), 'message %r' % str(e))
    n = rng.choice((-1, 17, 18, 80, 81, 96, -16, 255, rng.randrange(17, 10**6), -rng.randrange(1, 10**6)))
    ctx.raises(None, 'bad-for_number', Opcode.for_number, n)
    v = rng.randrange(17)
    ctx.eq(ctx.ok('for_number', Opcode.for_number, v).number, v and 80 + v, 'for_number(%d)' % v)


LENGTHS = (1, 2, 74, 75, 76, 77, 78, 79, 80, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 2**24, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1)


def lengths(ctx, rng, i):
    n = LENGTHS[i % len(LENGTHS)] if i < 200 else gen.uint(rng, 32) or 1
    want = n if n <= 75 else 76 if n <= 0xff else 77 if n <= 0xffff else 78
    o = ctx.ok('push_for', Opcode.push_for, n)
    ctx.eq(o.number, want, 'push_for(%d)' % n)
    ctx.eq(o, Opcode(want), 'push_for(%d)' % n)
    v = ctx.ok('var_push_for', Opcode.var_push_for, n)
    ctx.eq(v.number, max(want, 76), 'var_push_for(%d)' % n)
    if n <= 75:
        ctx.eq(ctx.ok('const_push_for', Opcode.const_push_for, n).number, n, 'const_push_for(%d)' % n)
    else:
        ctx.raises(Opcode.InvalidConstPushLength, 'bad-const', Opcode.const_push_for, n)
    m = rng.choice((0, -1, -75, 2**32, 2**32 + 1, 2**33, 2**64, -rng.randrange(1, 10**6)))
    for f in (Opcode.const_push_for, Opcode.var_push_for, Opcode.push_for):
        e = ctx.raises(Opcode.Error, 'bad-length', f, m)
        ctx.true(isinstance(e, (Opcode.InvalidConstPushLength, Opcode.InvalidPushLength)), '%s(%d) raised %r' % (f.__name__, m, e))
    ctx.seen('l', n)
    ctx.sample(length=n, opcode=want)


SECTIONS = [('queries', queries, 12000, 200000), ('pairs', pairs, 256, 2560), ('names', names, 80, 1600), ('bad-names', bad_names, 2000, 20000), ('numbers', numbers, 4000, 40000), ('lengths', lengths, 4000, 80000)]
REQUIRE = {'Opcode': 5000, 'compared': 65536, 'names': 5000, 'bad-name!*': 2000, 'bad-number!*': 3000, 'bad-length!*': 5000, 'push_for': 3000}
