from ..lib import *

ID = 'C10'
RULE = ('scripts of named opcodes and pushes to text and back (also with other white space and alias names), and texts made malformed by '
        'dropping, replacing and corrupting tokens; non-trivial: distinct text')
PUSHDATA = {'OP_PUSHDATA1': 76, 'OP_PUSHDATA2': 77, 'OP_PUSHDATA4': 78}
CODE = {n: v for n, v in rs.OPS.items()}


def ref_text(ops):
    out = []
    for o, d in ops:
        if d is None:
            out.append(rs.NAMES[o])
        elif o <= 75:
            out.append('%d 0x%s' % (o, d.hex()))
        else:
            out.append('%s %d 0x%s' % (rs.NAMES[o], len(d), d.hex()))
    return ' '.join(out)


def small_ops(rng, n=None, top=120):
    return gen.ops(rng, rng.randrange(12) if n is None else n, named=True, top=top)


def same(ctx, s, ops, what):
    b = rs.serialize(ops)
    ctx.true(isinstance(s, Script), what + ' is a Script')
    ctx.eq([(x.opcode.number, None if x.data is None else bytes(x.data)) for x in s.instructions], ops, what)
    ctx.eq(s.to_bytes(), b, what + ': bytes')


def roundtrip(ctx, rng, i):
    ops = small_ops(rng, top=rng.choice((80, 120, 600)))
    s = ctx.ok('from_bytes', Script.from_bytes, rs.serialize(ops))
    t = ctx.ok('to_string', s.to_string)
    ctx.true(isinstance(t, str), 'text form')
    u = ctx.ok('from_string', Script.from_string, t)
    same(ctx, u, ops, 'text round trip of %r' % t[:200])
    ctx.eq(u, s, 'text round trip')
    ctx.eq(ctx.ok('to_string', u.to_string), t, 'text again')
    # the documented notation, whatever to_string prints
    same(ctx, ctx.ok('from_string', Script.from_string, ref_text(ops)), ops, 'standard notation')
    ws = ''.join(rng.choice((' ', '  ', '\n', '\t', ' \n')) if c == ' ' else c for c in ref_text(ops))
    same(ctx, ctx.ok('from_string', Script.from_string, rng.choice(('', ' ', '\n')) + ws + rng.choice(('', ' ', '\n'))), ops, 'other white space')
    if ops:
        ins = s.instructions[0]
        ctx.eq(ctx.ok('ins.to_string', ins.to_string), ref_text(ops[:1]), 'instruction text')
    ctx.seen('r', ref_text(ops))
    ctx.sample(text=t)


def names(ctx, rng, i):
    """Every opcode by its name; OP_FALSE and OP_TRUE are aliases."""
    o = gen.NAMED[i % len(gen.NAMED)]
    if 1 <= o <= 78:
        o = 97
    pre, post = small_ops(rng, rng.randrange(3)), small_ops(rng, rng.randrange(3))
    ops = pre + [(o, None)] + post
    same(ctx, ctx.ok('from_string', Script.from_string, ref_text(ops)), ops, rs.NAMES[o])
    for alias, v in (('OP_FALSE', 0), ('OP_TRUE', 81)):
        same(ctx, ctx.ok('from_string', Script.from_string, alias), [(v, None)], alias)
    same(ctx, ctx.ok('from_string', Script.from_string, rng.choice(('', ' ', '\n \t'))), [], 'empty text')
    ctx.eq(ctx.ok('to_string', Script([]).to_string), '', 'text of the empty script')


def big(ctx, rng, i):
    n = (255, 256, 257, 520, 521, 1000, 65535, 65536, 66000)[i % 9]
    d = gen.fill(rng, n)
    for o in (76, 77, 78):
        if n <= {76: 255, 77: 65535, 78: 2**32 - 1}[o]:
            ops = [(o, d), (118, None)]
            s = ctx.ok('from_bytes', Script.from_bytes, rs.serialize(ops))
            same(ctx, ctx.ok('from_string', Script.from_string, ctx.ok('to_string', s.to_string)), ops, 'big push')
        else:
            ctx.raises(BitforgeError, 'bad', Script.from_string, ref_text([(o, d)]))
    ctx.seen('b', d)


def tokens(ops):
    out = []
    for o, d in ops:
        out.append(ref_text([(o, d)]).split())
    return out


def ref_parse(t):
    """The notation's definition: list of ops, or None when malformed; 'skip' where the notation leaves room."""
    toks = t.split()
    out, k = [], 0
    while k < len(toks):
        x = toks[k]
        k += 1
        if x in PUSHDATA or x.isascii() and x.isdigit():
            if x in PUSHDATA:
                if k + 2 > len(toks):
                    return None
                size, h = toks[k], toks[k + 1]
                k += 2
                if not (size.isascii() and size.isdigit()):
                    return None
                if len(size) > 10:
                    return 'skip' if size.startswith('0') else None
                size = int(size)
                o = PUSHDATA[x]
            else:
                if k + 1 > len(toks):
                    return None
                h = toks[k]
                k += 1
                if len(x) > 10:
                    return 'skip' if x.startswith('0') else None
                o = size = int(x)
                if not 1 <= o <= 75:
                    return None
            if not h.startswith('0x') or not is_hex(h[2:]):
                return None
            d = bytes.fromhex(h[2:])
            if len(d) != size or size > {76: 255, 77: 65535}.get(o, 2**32):
                return None
            out.append((o, d))
        elif x in CODE:
            out.append((CODE[x], None))
        else:
            return None
    return out


def judge(ctx, t):
    want = ref_parse(t)
    if want == 'skip':
        return
    if want is None:
        ctx.raises(BitforgeError, 'bad', Script.from_string, t)
    else:
        same(ctx, ctx.ok('from_string', Script.from_string, t), want, repr(t[:200]))
    ctx.seen('j', t)


def malformed(ctx, rng, i):
    ops = small_ops(rng, rng.randrange(1, 6))
    toks = [x for ins in tokens(ops) for x in ins]
    for _ in range(8):
        u = list(toks)
        k = rng.randrange(9)
        p = rng.randrange(len(u))
        if k == 0:
            del u[p]
        elif k == 1:
            u[p] = gen.mutate_text(rng, u[p])
        elif k == 2:
            u.insert(p, rng.choice(('0', '76', '-1', '+5', '1', '75', '0x', '0x00', '0xzz', 'OP_', 'OP_UNKNOWN', 'op_dup', 'DUP', '٣', '²', '1_0', '1.0', '0x1', 'PUSH',
                                    'OP_PUSHDATA1', 'OP_PUSHDATA2', '9' * 20, 'OP_NOP11', 'OP_17', '_PUSH_5_BYTES', 'None', 'OP_DUP,', 'Opcode', '1e1', '0b1', '0o7')))
        elif k == 3:
            u = u[:p]
        elif k == 4 and u[p].startswith('0x'):
            h = u[p]
            u[p] = rng.choice((h[2:], h + '0', h + '00', h[:-1], h[:-2], '0X' + h[2:], h[:2] + 'g' + h[3:], 'x' + h[2:], h[:2], '0x' + h, h + 'é', '0x٠١'))
        elif k == 5:
            for q, x in enumerate(u):
                if x.isdigit():
                    u[q] = str(int(x) + rng.choice((-1, 1, 256, -int(x), 65536)))
                    break
        elif k == 6:
            q = rng.randrange(len(u))
            u[p], u[q] = u[q], u[p]
        elif k == 7:
            u[p] = u[p].lower() if rng.random() < .5 else u[p].swapcase()
        else:
            u[p] = rng.choice(gen.WORDS + gen.TEXTS)
        judge(ctx, ' '.join(u))
    judge(ctx, gen.text(rng))
    judge(ctx, 'OP_' + gen.text(rng, 12))


def arguments(ctx, rng, i):
    """Pushes with each part wrong in turn."""
    n = rng.choice((1, 2, 20, 33, 75, 76, 80, 255, rng.randrange(1, 256)))
    d = gen.fill(rng, n).hex()
    name = rng.choice(('OP_PUSHDATA1', 'OP_PUSHDATA2', 'OP_PUSHDATA4'))
    for t in ('%s %d 0x%s' % (name, n, d), '%s %d 0x%s' % (name, n + 1, d), '%s %d 0x%s' % (name, n - 1, d), '%s %d' % (name, n), name, '%s 0x%s' % (name, d),
              '%s %d %s' % (name, n, d), '%s -%d 0x%s' % (name, n, d), '%s %d 0x%s' % (name, n, d[:-1]), '%s %d 0x%sz' % (name, n, d[:-1]), '%s x 0x%s' % (name, d),
              '%s %d 0x%s OP_DUP %s' % (name, n, d, name), '%d 0x%s' % (n, d), '%d 0x%s' % (n + 1, d), '%d 0x%s' % (max(0, n - 1), d), '%d' % n, '%d %s' % (n, d), '-%d 0x%s' % (n, d),
              '%d 0x%s 0x%s' % (n, d, d), '0x%s' % d, '0 0x', '0 0x%s' % d, '%s 0 0x' % name, '76 0x' + '00' * 76, '%d 0x' % n, '%d OP_DUP' % n, '%s %d OP_DUP' % (name, n),
              '%d.0 0x%s' % (n, d), '%s 0x%x 0x%s' % (name, n, d), '%s ² 0x%s' % (name, d), '² 0x%s' % d, '%s %s 0x%s' % (name, '9' * 5000, d), '9' * 5000 + ' 0x00'):
        judge(ctx, t)


SECTIONS = [('roundtrip', roundtrip, 6000, 120000), ('names', names, 2000, 20000), ('big', big, 27, 270), ('malformed', malformed, 3000, 60000), ('arguments', arguments, 800, 16000)]
REQUIRE = {'to_string': 5000, 'from_string': 8000, 'bad*': 8000}
