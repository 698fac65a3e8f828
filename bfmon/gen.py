"""Hostile input generators: boundaries first, then randomness, plus the constants that occur in the code under test."""
import ast, json, os, random
from .ref import ec, codec, script as rs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BFMON_REPO', '/repo')
N, P = ec.N, ec.P


def _harvest():
    """int / bytes / text constants of the current sources: a dictionary for the generators (as fuzzers use), nothing
    is ever judged by it."""
    ints, blobs, texts = set(), set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, 'bitforge')):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding='utf8').read())
            except (SyntaxError, ValueError):
                continue
            docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                    if isinstance(v, bool) or v is None:
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, float) and v == int(v) and abs(v) < 1e30:
                        ints.add(int(v))
                    elif isinstance(v, bytes) and len(v) <= 80:
                        blobs.add(v)
                    elif isinstance(v, str) and len(v) <= 60:
                        texts.add(v)
                elif isinstance(n, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(n), '', 'eval'), {'__builtins__': {}})
                        if isinstance(v, int) and abs(v) < 1 << 300:
                            ints.add(v)
                    except Exception:
                        pass
    return sorted(ints), sorted(blobs), sorted(texts)


INTS, BLOBS, TEXTS = _harvest()
DICT = sorted({abs(v) + d for v in INTS for d in (-1, 0, 1)} - {-1})
SMALL_DICT = [v for v in DICT if v <= 0xffff]
U32_DICT = [v for v in DICT if v <= 0xffffffff]
U64_DICT = [v for v in DICT if v <= 2**64 - 1]
LENS = sorted({0, 1, 2, 3, 4, 5, 8, 9, 16, 19, 20, 21, 31, 32, 33, 34, 35, 40, 63, 64, 65, 66, 71, 72, 73, 74, 75, 76,
               77, 78, 79, 80, 81, 82, 127, 128, 129, 200, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 519, 520,
               521, 522, 600, 1000, 1024})
BIG_LENS = [65534, 65535, 65536, 65537]

_sp = os.path.join(VERIF, 'data', 'specials.json')
SPECIAL = json.load(open(_sp)) if os.path.exists(_sp) else {}
SPECIAL_SECRETS = [int(h, 16) for k in sorted(SPECIAL.get('secrets', {})) for h in SPECIAL['secrets'][k]]


def pick(rng, *pairs):
    """pick(rng, (weight, thunk), ...)"""
    t = rng.random() * sum(w for w, _ in pairs)
    for w, f in pairs:
        t -= w
        if t <= 0:
            return f()
    return pairs[-1][1]()


def uint(rng, bits):
    """An integer in 0..2**bits-1, boundary-heavy."""
    top = (1 << bits) - 1
    k = rng.randrange(10)
    if k == 0:
        v = rng.choice((0, 1, 2, top, top - 1))
    elif k <= 2:
        v = (1 << rng.randrange(bits + 1)) + rng.choice((-2, -1, 0, 1))
    elif k == 3:
        v = (1 << (8 * rng.randrange(bits // 8 + 1))) + rng.choice((-1, 0, 1))
    elif k == 4:
        v = rng.choice(DICT)
    elif k == 5:
        v = 0
        for _ in range(rng.randrange(1, 5)):
            v |= rng.randrange(256) << (8 * rng.randrange(max(1, bits // 8)))
    elif k == 6:
        v = rng.getrandbits(bits)
    else:
        v = rng.getrandbits(rng.randrange(1, bits + 1))
    return v if 0 <= v <= top else rng.getrandbits(bits)


def length(rng, top=600):
    k = rng.randrange(10)
    if k < 4:
        n = rng.choice(LENS)
    elif k < 5:
        n = rng.choice(SMALL_DICT)
    elif k < 8:
        n = rng.randrange(40)
    else:
        n = rng.randrange(top + 1)
    return n if n <= top else rng.randrange(top + 1)


def fill(rng, n):
    """n bytes of varied content."""
    k = rng.randrange(9)
    if k < 4:
        return rng.randbytes(n)
    if k == 4:
        return bytes(n)
    if k == 5:
        return b'\xff' * n
    if k == 6:
        z = rng.randrange(n + 1)
        return bytes(z) + rng.randbytes(n - z)
    if k == 7:
        z = rng.randrange(n + 1)
        return rng.randbytes(n - z) + bytes(z)
    unit = rng.choice([b for b in BLOBS if b] or [b'\x01']) if rng.random() < .5 else rng.randbytes(rng.randrange(1, 4))
    return (unit * (n // len(unit) + 1))[:n]


def blob(rng, top=600):
    if rng.random() < .06 and BLOBS:
        b = rng.choice(BLOBS)
        if len(b) <= top:
            return b
    return fill(rng, length(rng, top))


def secret(rng):
    k = rng.randrange(14)
    if k == 0:
        v = rng.choice((1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1, (N + 1) // 2 + 1))
    elif k == 1:
        v = rng.getrandbits(8 * rng.randrange(1, 32))
    elif k == 2:
        v = 1 << rng.randrange(256)
    elif k == 3:
        v = (1 << rng.randrange(1, 257)) - rng.choice((1, 2))
    elif k == 4:
        v = int.from_bytes(fill(rng, 32), 'big')
    elif k == 5:
        v = rng.choice(DICT)
    elif k == 6:
        v = rng.getrandbits(256 - 8 * rng.randrange(1, 32)) << (8 * rng.randrange(1, 32))
        v &= (1 << 256) - 1
    elif k <= 8 and SPECIAL_SECRETS:
        v = rng.choice(SPECIAL_SECRETS)
    elif k == 9:
        v = N - 1 - rng.choice(DICT)
    else:
        v = rng.randrange(1, N)
    return v if 1 <= v < N else rng.randrange(1, N)


def bad_secret(rng):
    k = rng.randrange(5)
    if k == 0:
        return rng.choice((0, N, N + 1, 2 * N, 2**256 - 1, N + N // 2))
    if k == 1:
        return rng.randrange(N, 2**256)
    if k == 2:
        return 0
    if k == 3:
        return N + rng.randrange(1000)
    return N


def digest(rng):
    return pick(rng, (5, lambda: rng.randbytes(32)), (2, lambda: fill(rng, 32)),
                (1, lambda: rng.choice((0, 1, N - 1, N, N + 1, 2**256 - 1, P)).to_bytes(32, 'big')),
                (1, lambda: uint(rng, 256).to_bytes(32, 'big')))


def mutate(rng, b):
    """A small change to some bytes (may, rarely, return them unchanged)."""
    b = bytearray(b)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        k = rng.randrange(9)
        pos = rng.randrange(len(b)) if b else 0
        if k == 0 and b:
            b[pos] ^= 1 << rng.randrange(8)
        elif k == 1 and b:
            b[pos] = rng.randrange(256)
        elif k == 2 and b:
            del b[pos]
        elif k == 3:
            b.insert(rng.randrange(len(b) + 1), rng.randrange(256))
        elif k == 4 and b:
            b = b[:rng.randrange(len(b))]
        elif k == 5:
            b += rng.randbytes(rng.randrange(1, 4))
        elif k == 6 and b:
            b[pos] = rng.choice((0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff))
        elif k == 7 and len(b) > 1:
            q = rng.randrange(len(b))
            b[pos], b[q] = b[q], b[pos]
        elif k == 8 and b:
            b[pos] = (b[pos] + rng.choice((-1, 1))) % 256
    return bytes(b)


def mutate_text(rng, s):
    s = list(s)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        k = rng.randrange(8)
        pos = rng.randrange(len(s)) if s else 0
        c = rng.choice(codec.ALPHABET) if rng.random() < .6 else rng.choice('0OIl +/=_-\n\t\0\x80é☃\ud800zZ1xX')
        if k == 0 and s:
            s[pos] = c
        elif k == 1:
            s.insert(rng.randrange(len(s) + 1), c)
        elif k == 2 and s:
            del s[pos]
        elif k == 3 and len(s) > 1:
            q = rng.randrange(len(s))
            s[pos], s[q] = s[q], s[pos]
        elif k == 4 and s:
            s[pos] = s[pos].swapcase()
        elif k == 5 and s:
            s = s[:pos]
        elif k == 6:
            s = [rng.choice((' ', '1', '\n', '0', '\0'))] + s if rng.random() < .5 else s + [rng.choice((' ', '1', '\n', '0', '\0'))]
        elif k == 7 and s:
            s.insert(pos, s[pos])
    return ''.join(s)


WORDS = ['', ' ', 'a', 'z', '0x', '0x00', 'é', '☃', '\ud800', '\0', '\n', '1', '11111', '0', 'OP_0', 'nan', 'inf', '-1',
         '1e999', 'bitcoin:', '%00', '%', '&', '=', '?', '#', '{', '{0}', '{string}', '}', '%s', "'", '"', '\\']


def text(rng, top=60):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(WORDS)
    if k == 1:
        return rng.choice(TEXTS)
    if k == 2:
        return ''.join(rng.choice(codec.ALPHABET) for _ in range(rng.randrange(top)))
    if k == 3:
        return ''.join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(top)))
    if k == 4:
        return rng.randbytes(rng.randrange(top // 2)).hex()
    return ''.join(rng.choice(WORDS) for _ in range(rng.randrange(6)))


NETS = ('livenet', 'testnet')
VERSIONS = {('livenet', 'pub'): 0, ('livenet', 'script'): 5, ('livenet', 'wif'): 0x80,
            ('testnet', 'pub'): 111, ('testnet', 'script'): 196, ('testnet', 'wif'): 239}


# ---- scripts --------------------------------------------------------------------------------------

def push_op(rng, top=600):
    """(opcode, data) with a possibly non-minimal push opcode."""
    data = blob(rng, top)
    n = len(data)
    ops = [78]
    if n <= 65535:
        ops.append(77)
    if n <= 255:
        ops.append(76)
    if 1 <= n <= 75:
        ops += [n] * 4
    if n == 0:
        return (0, None) if rng.random() < .3 else (rng.choice((76, 77, 78)), b'')
    return rng.choice(ops), data


NAMED = sorted(rs.NAMES)


def ops(rng, n, named=True, push_p=.45, top=120):
    out = []
    for _ in range(n):
        if rng.random() < push_p:
            out.append(push_op(rng, top))
        else:
            while True:
                o = rng.choice(NAMED) if named or rng.random() < .7 else rng.randrange(256)
                if not 1 <= o <= 78:
                    break
            out.append((o, None))
    return out


def template(rng):
    """A script with the form of one of the standard ones."""
    d = lambda n: push_op_for(rng, fill(rng, n))
    sec = lambda: push_op_for(rng, ec.sec(ec.gmul(rng.choice((1, 2, 3, N - 1, 5))), rng.random() < .7))
    n = rng.randrange(1, 5)
    return rs.serialize(rng.choice((
        lambda: [d(rng.choice((71, 72, 9, 1))), sec() if rng.random() < .7 else d(33)],
        lambda: [(118, None), (169, None), d(20), (136, None), (172, None)],
        lambda: [(0, None)] + [d(72) for _ in range(n)] + [d(40)],
        lambda: [(169, None), d(20), (135, None)],
        lambda: [(169, None), (20, fill(rng, 20)), (135, None)],
        lambda: [(106, None), d(rng.randrange(1, 81))],
        lambda: [(80 + n, None)] + [sec() for _ in range(n)] + [(80 + n, None), (174, None)]))())


def push_op_for(rng, data):
    n = len(data)
    return (n if n <= 75 else 76 if n <= 255 else 77, data) if rng.random() < .85 else (rng.choice((76, 77, 78)) if n <= 255 else 77, data)


def script_bytes(rng, n=None, **k):
    if rng.random() < .2 and n != 0:
        return template(rng)
    return rs.serialize(ops(rng, rng.randrange(12) if n is None else n, **k))
