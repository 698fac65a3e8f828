from ..progs import *

ID = 'C14'
RULE = ('pairs of scripts under random flag combinations and transactions: every opcode with boundary operands of every encoding (systematic), and '
        'programs grown instruction by instruction to run deep, split at random between the two scripts; verdict and final stack are compared with '
        'an independent port of the Bitcoin rules; non-trivial: distinct (scripts, flags, lock time)')
ASSUMPTIONS = ['programs that judge a signature are left to C15', 'F-CASTBOOL (KNOWN_FINDINGS) explains a difference only if the reference machine with '
               'exactly that defect agrees with verdict and stack']

ENC = sorted({codec.num_enc(v) for v in NUMS} | {pad(codec.num_enc(v), n) for v in (0, 1, -1, 127, 128, -128, 255, 2**31 - 1) for n in (1, 2)} | {b'\x80', b'\0', b'\0\0'})
ENC4 = [e for e in ENC if len(e) <= 4]


def unary(ctx, rng, i):
    """Every one-operand opcode on every encoding (i enumerates opcode x operand)."""
    ops1 = UNARY + HASHES + (99, 100, 105, 107, 115, 116, 117, 118, 130, 177, 121, 122, 97, 79, 81, 96, 174)
    o = ops1[i % len(ops1)]
    e = ENC[i // len(ops1) % len(ENC)]
    below = [element(rng) for _ in range(rng.randrange(4))]
    tail = [(104, None)] if o in (99, 100) else []
    if o in (99, 100) and rng.random() < .5:
        tail = [element(rng), (103, None), element(rng), (104, None)]
    fl = flags(rng)
    btx, t, nin = transaction(rng) if o == 177 else (None, None, 0)
    push = push_any(rng, e)
    differ(ctx, rs.serialize(below), rs.serialize([push, (o, None)] + tail), btx, t, nin, fl)
    differ(ctx, rs.serialize(below + [push]), rs.serialize([(o, None)] + tail + [(81, None)]), btx, t, nin, fl & ~rs.MINIMALDATA)


def binary(ctx, rng, i):
    """Every two-operand number opcode on pairs of encodings (i enumerates; the thorough tier covers all of them)."""
    ops2 = BINARY + (135, 136, 124, 120, 119, 109, 110, 125)
    o = ops2[i % len(ops2)]
    j = i // len(ops2)
    if ctx.tier == 'quick':
        a, b = rng.choice(ENC4 if rng.random() < .85 else ENC), rng.choice(ENC4 if rng.random() < .85 else ENC)
        if rng.random() < .2:
            b = a
    else:
        a, b = ENC[j % len(ENC)], ENC[j // len(ENC) % len(ENC)]
    fl = rs.MINIMALDATA if rng.random() < .3 else flags(rng)
    differ(ctx, b'', rs.serialize([push_any(rng, a), push_any(rng, b), (o, None), (81, None)][:4 if rng.random() < .3 else 3]), None, None, 0, fl)
    differ(ctx, rs.serialize([push_min(a)]), rs.serialize([push_min(b), (o, None)]), None, None, 0, 0)


LENGTHS = (1, 2, 3, 4, 5, 8, 16, 19, 20, 21, 31, 32, 33, 63, 64, 65, 74, 75, 76, 77, 127, 128, 129, 255, 256, 257, 511, 512, 519, 520)


def equal(ctx, rng, i):
    """OP_EQUAL and OP_EQUALVERIFY on operands of every size: equal, different in one bit, a prefix of one another."""
    n = LENGTHS[i % len(LENGTHS)]
    a = gen.fill(rng, n)
    k = rng.choice((0, n - 1, n // 2, rng.randrange(n)))
    b = rng.choice((a, a[:k] + bytes([a[k] ^ (1 << rng.randrange(8))]) + a[k + 1:], a[:-1], a[1:], a[:-1] + b'\0', a[::-1], a + b'\0' if n < 520 else a, b'\0' + a if n < 520 else a))
    o = (135, 136)[i // len(LENGTHS) % 2]
    fl = flags(rng)
    differ(ctx, rs.serialize([push_any(rng, a)]), rs.serialize([push_any(rng, b), (o, None)] + ([(81, None)] if o == 136 else [])), None, None, 0, fl)
    differ(ctx, b'', rs.serialize([push_min(b), (130, None), (124, None), push_min(a), (o, None)]), None, None, 0, 0)
    ctx.event('equal operands' if a == b else 'unequal operands')


DEEP = (126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 400, 511, 512, 513, 700, 900, 990, 994, 995, 996, 997, 998, 999, 1000)


def deep(ctx, rng, i):
    """Stack opcodes on stacks of up to a thousand elements."""
    n = DEEP[i % len(DEEP)]
    els = [(81 + j % 16, None) if rng.random() < .5 else (2, j.to_bytes(2, 'little')) for j in range(n)]
    ops = []
    for _ in range(rng.randrange(1, 6)):
        o = rng.choice((116, 116, 121, 121, 122, 122) + STACKOPS)
        if o in (121, 122):
            ops.append(push_min(codec.num_enc(rng.choice((n - 1, n - 2, n, n + 1, n // 2, 126, 127, 128, 129, 254, 255, 256, 257, 0, 1, rng.randrange(n))))))
        ops.append((o, None))
    alt = rng.choice((0, 0, 0, 3, 130))
    ops[:0] = [(107, None)] * alt
    cut = rng.randrange(n + 1) if rng.random() < .5 else n
    differ(ctx, rs.serialize(els[:cut]), rs.serialize(els[cut:] + ops), None, None, 0, flags(rng) & ~rs.SIGPUSHONLY)
    ctx.event('deep stack')


def ternary(ctx, rng, i):
    near = rng.choice(SMALL)
    pick = lambda: gen.pick(rng, (3, lambda: near + rng.choice((-1, 0, 1))), (2, lambda: rng.choice(SMALL)), (1, lambda: rng.choice(NUMS)))
    x = [push_any(rng, pad(codec.num_enc(pick()), rng.choice((0, 0, 0, 0, 0, 0, 0, 1)))) for _ in range(3)]
    differ(ctx, b'', rs.serialize(x + [(165, None)] + ([(81, None)] if rng.random() < .3 else [])), None, None, 0, flags(rng))


def stackops(ctx, rng, i):
    """Each stack opcode on every depth around its need, with distinct elements."""
    o = STACKOPS[i % len(STACKOPS)]
    n = i // len(STACKOPS) % 9
    els = [(1, bytes([0x20 + j])) if rng.random() < .8 else element(rng) for j in range(n)]
    pre = []
    if o in (121, 122):
        v = rng.choice((-1, 0, 1, 2, n - 2, n - 1, n, n + 1, rng.randrange(-2, 12)))
        pre = [push_any(rng, codec.num_enc(v))]
    if o == 108:
        pre = [(1, b'\x55'), (107, None)] * rng.randrange(3)
    cut = rng.randrange(n + 1)
    differ(ctx, rs.serialize(els[:cut]), rs.serialize(els[cut:] + pre + [(o, None)]), None, None, 0, flags(rng))
    # the alternative stack does not survive between scripts
    differ(ctx, rs.serialize(els + [(107, None)]), rs.serialize([(81, None), (108, None)]), None, None, 0, flags(rng) & ~rs.SIGPUSHONLY)


NEEDS = {107: 1, 109: 2, 110: 2, 111: 3, 112: 4, 113: 6, 114: 4, 115: 1, 116: 0, 117: 1, 118: 1, 119: 2, 120: 2, 121: 1, 122: 1, 123: 3, 124: 2, 125: 2, 130: 1}


def stackseq(ctx, rng, i):
    """Long runs of stack opcodes on distinct elements, with both stacks in use."""
    n = rng.randrange(1, 9)
    els = [(1, bytes([0x20 + j])) for j in range(n)]
    ops, depth, alt = [], n, 0
    for _ in range(rng.randrange(2, 30)):
        o = rng.choice((107, 108, 107, 108) + STACKOPS) if rng.random() < .7 else rng.choice(STACKOPS)
        need = alt and 1 if o == 108 else NEEDS.get(o, 0)
        if (o == 108 and not alt or o != 108 and depth < need) and rng.random() < .97:
            continue
        if o in (121, 122):
            ops.append(push_min(codec.num_enc(rng.randrange(depth))) if depth > 0 else (0, None))
            depth += o == 121
        else:
            depth += {107: -1, 108: 1, 109: -2, 110: 2, 111: 3, 112: 2, 116: 1, 117: -1, 118: 1, 119: -1, 120: 1, 125: 1, 130: 1, 115: 1}.get(o, 0)
            alt += {107: 1, 108: -1}.get(o, 0)
        ops.append((o, None))
    while alt > 0 and rng.random() < .9:        # whatever was put aside must come back in order
        ops.append((108, None))
        alt -= 1
    cut = rng.randrange(n + 1)
    differ(ctx, rs.serialize(els[:cut]), rs.serialize(els[cut:] + ops + [(81, None)] * rng.randrange(2)), None, None, 0, flags(rng))


def shared(ctx, rng, i):
    """Results of opcodes copied around the stack, then worked on: a copy must not follow the original."""
    ops = [element(rng) if rng.random() < .3 else (rng.choice((0,) + tuple(range(79, 80)) + tuple(range(81, 97))), None) for _ in range(rng.randrange(1, 5))]
    depth, alt = len(ops), 0
    if rng.random() < .3:
        ops = [push_min(codec.num_enc(rng.choice((-1, 1)) * rng.randrange(1 << rng.choice((3, 7, 8, 15, 31))))) for _ in ops]
    for _ in range(rng.randrange(3, 22)):
        k = rng.random()
        if k < .45:
            o, d, need = rng.choice(((118, 1, 1), (120, 1, 2), (125, 1, 2), (110, 2, 2), (112, 2, 4), (115, 1, 1), (123, 0, 3), (124, 0, 2), (111, 3, 3), (107, -1, 1), (108, 1, 0)))
            if o == 108 and not alt:
                continue
        elif k < .8:
            o, d, need = rng.choice([(x, 0, 1) for x in (139, 140, 143, 144, 145, 146)] + [(x, -1, 2) for x in (147, 148, 163, 164, 154, 155, 156, 158, 135)] + [(165, -2, 3)])
        elif k < .93:
            o, d, need = rng.choice(((130, 1, 1), (116, 1, 0), (166, 0, 1), (169, 0, 1), (168, 0, 1), (167, 0, 1), (170, 0, 1)))
        else:
            o, d, need = rng.choice(((117, -1, 1), (119, -1, 2)))
        if depth < need:
            continue
        alt += {107: 1, 108: -1}.get(o, 0)
        depth += d
        ops.append((o, None))
    differ(ctx, b'', rs.serialize(ops), None, None, 0, flags(rng))


def flow(ctx, rng, i):
    """Nested conditionals with marked branches, well-formed and not."""
    mark = [0x30]
    limit = 4 if rng.random() < .7 else rng.randrange(5, 40)
    deep = limit > 4

    def block(d):
        out = []
        if deep and d < limit:      # one long chain of nested branches
            t = rng.random() < .9
            x = [(81 if t else 0, None), (99, None)] if rng.random() < .7 else [(0 if t else 81, None), (100, None)]
            for j in range(rng.choice((1, 2, 2, 3))):
                x += [(103, None)] * bool(j)
                if j == (0 if t else 1) or d + 1 == limit:
                    x += block(d + 1)
                else:
                    mark[0] += 1
                    x.append((1, bytes([mark[0] % 100 + 1])))
            return x + [(104, None)]
        for _ in range(rng.randrange(3)):
            if not deep and d < limit and rng.random() < .55:
                out.append(element(rng) if rng.random() < .3 else (rng.choice((0, 81)), None))
                out.append((rng.choice((99, 100)), None))
                out += block(d + 1)
                for _ in range(rng.choice((0, 1, 1, 2))):
                    out.append((103, None))
                    out += block(d + 1)
                out.append((104, None))
            else:
                mark[0] += 1
                out.append((1, bytes([mark[0] % 100 + 1])))
                if rng.random() < .2:
                    out.append((rng.choice(BAD + NOPS + (101, 102, 106, 105, 116)), None))
        return out
    ops = block(0)
    if rng.random() < .3 and ops:
        p = rng.randrange(len(ops))
        k = rng.randrange(3)
        if k == 0:
            del ops[p]
        elif k == 1:
            ops.insert(p, (rng.choice((99, 100, 103, 104)), None))
        else:
            ops[p] = (rng.choice((99, 100, 101, 102, 103, 104)), None)
    cut = rng.randrange(len(ops) + 1) if rng.random() < .2 else 0
    differ(ctx, rs.serialize(ops[:cut]), rs.serialize(ops[cut:] + [(81, None)] * rng.randrange(2)), None, None, 0, flags(rng) & ~(rs.SIGPUSHONLY if cut else 0))


def nesting(ctx, rng, i):
    """A dead branch, and in it conditionals that were turned by ELSE, down to the depth that the operation count allows: none comes to life."""
    n = (i % 64) + 1
    live = rng.choice((0, 0, 0, 1, 2, rng.randrange(64)))
    live = min(live, (198 - 3 * n) // 2 if n < 60 else 0)
    ops = [(81, None), (99, None)] * live                              # living branches around it
    t = rng.random() < .85
    ops += [(0 if t else 81, None), (99 if t else 100, None)]           # the dead branch
    inner = []
    for j in range(n):
        inner += [(rng.choice((99, 100)), None)] + [(103, None)] * (rng.random() < .97)
    ops += inner + [push_min(b'DEAD')] + [(104, None)] * n
    if rng.random() < .5:
        ops += [(103, None), push_min(b'LIVE')]
    ops += [(104, None)] + [(104, None)] * live
    if sum(1 for o, _ in ops if o > 96) > 201:
        return
    ctx.event('nested to %d or more' % (n // 16 * 16))
    differ(ctx, b'', rs.serialize(ops + [(81, None)] * rng.randrange(2)), None, None, 0, flags(rng))


def single(ctx, rng, i):
    """Each of the 256 opcodes executed and not executed, on empty and full stacks, in either script."""
    o = i % 256
    d = gen.fill(rng, o) if 1 <= o <= 75 else gen.fill(rng, rng.choice((0, 1, 75, 76, 255))) if 76 <= o <= 78 else None
    els = [element(rng) for _ in range(rng.choice((0, 3, 8)))]
    fl = flags(rng)
    ops = [(o, d)]
    if rng.random() < .35:
        ops = [(0, None), (99, None), (o, d), (104, None)]
        ctx.event('not executed')
    tail = [(81, None)] if rng.random() < .7 else []
    if rng.random() < .5:
        differ(ctx, rs.serialize(els), rs.serialize(ops + tail), None, None, 0, fl)
    else:
        differ(ctx, rs.serialize(els + ops), rs.serialize(tail or [(97, None)]), None, None, 0, fl & ~rs.SIGPUSHONLY if rng.random() < .7 else fl)


FLAG_NAMES = {'SCRIPT_VERIFY_' + n: b for n, b in (('NONE', 0), ('P2SH', 1), ('STRICTENC', 2), ('DERSIG', 4), ('LOW_S', 8), ('NULLDUMMY', 16), ('SIGPUSHONLY', 32), ('MINIMALDATA', 64),
                                                  ('DISCOURAGE_UPGRADABLE_NOPS', 128), ('CHECKLOCKTIMEVERIFY', 512))}


def minimaldata(ctx, rng, i):
    """Pushes of every length and one-byte value by every opcode, executed or not."""
    k = i % 3
    if k == 0:
        d = bytes([i // 3 % 256])
    else:
        d = gen.fill(rng, rng.choice((0, 1, 2, 74, 75, 76, 77, 254, 255, 256, 257, 519, 520)))
    n = len(d)
    ops = [(78, d), (77, d)] + ([(76, d)] if n <= 255 else []) + ([(n, d)] if 1 <= n <= 75 else []) + ([(0, None)] if n == 0 else [])
    for p in ops:
        differ(ctx, rs.serialize([p]), rs.serialize([(81, None)]), None, None, 0, rs.MINIMALDATA)
        if rng.random() < .2:
            differ(ctx, b'', rs.serialize([(0, None), (99, None), p, (103, None), (81, None), (104, None)]), None, None, 0, rs.MINIMALDATA)
    if i % 24 == 0:
        d = bytes(rng.choice((519, 520, 521, 65534, 65535, 65536, 65537, 70000)))
        ops = [(78, d)] + ([(77, d)] if len(d) < 65536 else [])
    for p in ops:
        ctx.true(bool(ctx.ok('is_minimal_push', Instruction(Opcode(p[0]), p[1]).is_minimal_push)) is bool(p[1] is None or rs.minimal_push(*p)), 'is_minimal_push of opcode %d with %d bytes' % (p[0], len(p[1] or b'')))
    if i < 8:
        for name, bit in FLAG_NAMES.items():
            ctx.eq(getattr(Interpreter, name), bit, name)
    e = rng.choice(ENC)
    differ(ctx, b'', rs.serialize([push_min(e), (rng.choice(UNARY), None)]), None, None, 0, rs.MINIMALDATA)


def locktime(ctx, rng, i):
    btx, t, nin = transaction(rng)
    T = 500000000
    v = gen.pick(rng, (4, lambda: t.lock + rng.choice((-1, 0, 0, 1))), (2, lambda: rng.choice((0, 1, T - 1, T, T + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**39 - 1, 2**39, -1, -t.lock))),
                 (1, lambda: gen.uint(rng, 40)), (1, lambda: rng.randrange(t.lock + 1)))
    d = codec.num_enc(v)
    if rng.random() < .1:
        d = pad(d, rng.randrange(1, 3))
    ops = [push_any(rng, d), (177, None)]
    if rng.random() < .1:
        ops = [(177, None)]
    elif rng.random() < .1:
        ops = [(0, None), (99, None), (177, None), (104, None), (81, None)]
    fl = rng.choice((rs.CLTV, rs.CLTV, rs.CLTV | rs.MINIMALDATA, rs.CLTV | rs.DISCOURAGE_NOPS, rs.DISCOURAGE_NOPS, 0, flags(rng), flags(rng) | rs.CLTV))
    r = differ(ctx, b'', rs.serialize(ops + [(81, None)] * rng.randrange(2)), btx, t, nin, fl)
    if r and fl & rs.CLTV:
        ctx.event('lock time satisfied')


def multisig0(ctx, rng, i):
    """CHECKMULTISIG without signatures: counts, dummy element, op counting."""
    n = rng.choice((0, 1, 2, 3, 15, 16, 19, 20, 21, 22, -1))
    m = rng.choice((0, 0, 0, -1))
    dummy = rng.choice(((0, None), (0, None), (81, None), element(rng), (76, b'')))
    have = max(0, n + rng.choice((0, 0, 0, 0, -1, 1)))
    num = lambda v: push_any(rng, pad(codec.num_enc(v), rng.choice((0, 0, 0, 0, 1))))
    ops = ([dummy] if rng.random() < .9 else []) + [num(m)] + [element(rng) for _ in range(have)] + [num(n), (rng.choice((174, 175)), None)]
    pre = [(97, None)] * (rng.choice((0, 0, 201 - max(0, n) - 1, 201 - max(0, n))) if n > 0 else 0)
    tail = [(81, None)] if ops[-1][0] == 175 else []
    differ(ctx, b'', rs.serialize(pre + ops + tail), None, None, 0, rng.choice((0, rs.NULLDUMMY, rs.MINIMALDATA, flags(rng))))


def programs(ctx, rng, i):
    fl = flags(rng)
    btx, t, nin = transaction(rng) if rng.random() < .7 else (None, None, 0)
    lock = t.lock if t else 0
    if rng.random() < .5 or fl & rs.SIGPUSHONLY and rng.random() < .9:
        sig = [element(rng) for _ in range(rng.randrange(5))]
        pub = grow(rng, final_stack(sig, fl), rng.randrange(1, 14), fl, t, nin, lock)
    else:
        whole = grow(rng, [], rng.randrange(1, 16), fl, t, nin, lock)
        cut = rng.randrange(len(whole) + 1)
        sig, pub = whole[:cut], whole[cut:]
    differ(ctx, rs.serialize(sig), rs.serialize(pub), btx, t, nin, fl)
    ctx.sample(sig=rs.serialize(sig), pub=rs.serialize(pub), flags='%#x' % fl)


def mutants(ctx, rng, i):
    """A grown program with one instruction changed."""
    fl = flags(rng)
    ops = grow(rng, [], rng.randrange(2, 10), fl)
    for _ in range(4):
        u = list(ops)
        p = rng.randrange(len(u)) if u else 0
        k = rng.randrange(4)
        if k == 0 and u:
            del u[p]
        elif k == 1:
            u[p:p] = snippet(rng)
        elif k == 2 and u:
            u[p] = (rng.randrange(79, 256), None)
        elif k == 3 and u:
            u[p] = element(rng)
        differ(ctx, b'', rs.serialize(u), None, None, 0, rng.choice((fl, flags(rng))))


SECTIONS = [('unary', unary, 9000, 60000), ('binary', binary, 21000, 120000), ('equal', equal, 3000, 40000), ('deep', deep, 780, 8000), ('ternary', ternary, 8000, 80000), ('stackops', stackops, 5400, 54000), ('stackseq', stackseq, 6000, 120000), ('shared', shared, 8000, 160000), ('flow', flow, 8000, 160000), ('nesting', nesting, 1280, 12800),
            ('single', single, 6144, 100000), ('minimaldata', minimaldata, 3072, 30000), ('locktime', locktime, 6000, 120000), ('multisig0', multisig0, 5000, 80000),
            ('programs', programs, 9000, 240000), ('mutants', mutants, 3000, 80000)]
REQUIRE = {'true': 20000, 'false*': 20000, 'lock time satisfied': 150, 'not executed': 500, 'equal operands': 200, 'unequal operands': 500, 'deep stack': 150, 'nested to 16 or more': 100, 'nested to 48 or more': 60}
REQUIRE.update({'op %d executed' % o: 20 for o in range(79, 256) if o in rs.NAMES and o not in rs.DISABLED and o not in (172, 173)})
