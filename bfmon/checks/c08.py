from ..lib import *
from bitforge.encoding import encode_int, decode_int, encode_varint, encode_script_number, decode_script_number
from bitforge.tools import Buffer
from bitforge.utils import intbytes

ID = 'C08'
RULE = ('boundary-heavy integers (powers of two and of 256 +-2, constants of the code, random of every size) through each integer format, '
        'every byte string of up to two bytes as script number, and model-based read/write histories of Buffer; non-trivial: distinct '
        '(format, value) or distinct buffer history')


def fixed(ctx, rng, i):
    L = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 20, 31, 32, 33, 64, rng.randrange(1, 70)))
    v = gen.uint(rng, 8 * L)
    for big in (True, False):
        want = v.to_bytes(L, 'big' if big else 'little')
        got = ctx.ok('encode', encode_int, v, big_endian=big, length=L) if rng.random() < .7 else ctx.ok('encode', encode_int, v, big, L)
        ctx.eq(got, want, 'encode_int(%d, big=%s, length=%d)' % (v, big, L))
        ctx.true(type(got) is bytes, 'type of encode_int: %r' % type(got))
        src = rng.choice((bytes, bytearray, Buffer))(want)
        ctx.eq(ctx.ok('decode', decode_int, src, big_endian=big), v, 'decode_int of ' + want.hex())
        ctx.eq(bytes(src), want, 'argument of decode_int afterwards')
    ctx.eq(ctx.ok('encode', encode_int, v, length=L), v.to_bytes(L, 'big'), 'default byte order')
    ctx.eq(ctx.ok('decode', decode_int, v.to_bytes(L, 'big')), v, 'default byte order')
    for bad in (1 << 8 * L, (1 << 8 * L) + v, (v + 1) << 8 * L, -1, -v - 1):
        ctx.raises(None, 'bad-encode', encode_int, bad, big_endian=rng.random() < .5, length=L)
    ctx.seen('f', v, L)
    ctx.sample(value=v, length=L)


def minimal(ctx, rng, i):
    v = gen.uint(rng, rng.choice((8, 16, 32, 64, 256, 300)))
    n = max(1, (v.bit_length() + 7) // 8)
    for big in (True, False):
        want = v.to_bytes(n, 'big' if big else 'little')
        got = ctx.ok('encode', encode_int, v, big_endian=big)
        ctx.eq(got, want, 'encode_int(%d, big=%s)' % (v, big))
        ctx.true(type(got) is bytes, 'type of encode_int: %r' % type(got))
        pad = bytes(rng.randrange(3))
        ctx.eq(ctx.ok('decode', decode_int, pad + want if big else want + pad, big), v, 'decode with zero padding')
    ctx.raises(None, 'bad-encode', encode_int, -v - 1, big_endian=rng.random() < .5)
    b = gen.blob(rng, 40)
    ctx.eq(ctx.ok('decode', decode_int, b), int.from_bytes(b, 'big'), 'decode_int of ' + b.hex())
    ctx.eq(ctx.ok('decode', decode_int, b, big_endian=False), int.from_bytes(b, 'little'), 'decode_int LE of ' + b.hex())
    ctx.seen('m', v)


def varint(ctx, rng, i):
    v = i if i < 700 else gen.pick(rng, (2, lambda: gen.uint(rng, 64)), (1, lambda: rng.choice((0, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537,
        2**32 - 1, 2**32, 2**32 + 1, 2**64 - 1, 2**63, 2**63 - 1))), (1, lambda: rng.randrange(70000)), (1, lambda: gen.uint(rng, 34)))
    want = codec.varint(v)
    got = ctx.ok('varint', encode_varint, v)
    ctx.eq(got, want, 'encode_varint(%d)' % v)
    tail = rng.randbytes(rng.randrange(5))
    b = Buffer(want + tail)
    ctx.eq(ctx.ok('read_varint', b.read_varint), v, 'read_varint of ' + want.hex())
    ctx.eq(bytes(b), tail, 'left after read_varint')
    # any prefix, canonical or not, reads as its field says
    p = rng.choice((253, 254, 255, rng.randrange(253)))
    n = {253: 2, 254: 4, 255: 8}.get(p, 0)
    f = gen.fill(rng, n)
    b = Buffer(bytes([p]) + f + tail)
    ctx.eq(ctx.ok('read_varint', b.read_varint), int.from_bytes(f, 'little') if n else p, 'read_varint')
    ctx.eq(bytes(b), tail, 'left after read_varint')
    if n:
        ctx.raises(Buffer.InsufficientData, 'bad-read_varint', Buffer(bytes([p]) + f[:rng.randrange(n)]).read_varint)
    ctx.raises(Buffer.InsufficientData, 'bad-read_varint', Buffer().read_varint)
    ctx.raises(None, 'bad-varint', encode_varint, rng.choice((2**64, 2**64 + v, -1, -v - 1, 2**65, 2**72)))
    ctx.seen('v', v)


def decode_num(ctx, b, minimal, size):
    try:
        want = codec.num_dec(b, minimal, size)
    except codec.NumError:
        want = None
    src = bytes(b)
    args = (src, minimal, size) if size != 4 or minimal else (src,)
    if want is None:
        ctx.raises(None, 'bad-number', decode_script_number, *args)
    else:
        ctx.eq(ctx.ok('number', decode_script_number, *args), want, 'script number %s' % src.hex())
        ctx.eq(ctx.ok('number', decode_script_number, bytearray(b), minimal, size), want, 'script number %s' % src.hex())


def number(ctx, rng, i):
    v = gen.uint(rng, rng.choice((8, 16, 31, 32, 39, 40, 64, 100)))
    for n in (v, -v):
        want = codec.num_enc(n)
        got = ctx.ok('encode-number', encode_script_number, n)
        ctx.true(isinstance(got, (bytes, bytearray)), 'type')
        ctx.eq(bytes(got), want, 'encode_script_number(%d)' % n)
        size = max(4, len(want))
        for m in (False, True):
            ctx.eq(ctx.ok('number', decode_script_number, want, m, size), n, 'decoded script number')
        decode_num(ctx, want, rng.random() < .5, rng.choice((4, 5)))
        decode_num(ctx, want + bytes(rng.randrange(3)), rng.random() < .5, rng.choice((4, 5, 8)))
    ctx.seen('n', v)


def number_bytes(ctx, rng, i):
    """Every string of up to two bytes; longer ones with extreme last bytes."""
    if i < 1:
        b = b''
    elif i < 257:
        b = bytes([i - 1])
    elif i < 257 + 65536 and (ctx.tier != 'quick' or i < 4000):
        b = (i - 257).to_bytes(2, 'little') if ctx.tier != 'quick' else bytes([rng.choice((0, 1, 0x7f, 0x80, 0x81, 0xff, rng.randrange(256))), i % 256])
    else:
        b = gen.fill(rng, rng.randrange(1, 8)) + rng.choice((b'', b'\0', b'\x80', b'\x80\0', b'\x80\x80', b'\x7f', b'\xff', b'\x7f\x80', b'\x00\x80', b'\xff\x00', b'\xff\x80'))
    for m in (False, True):
        for size in (4, 5, rng.randrange(1, 10)):
            decode_num(ctx, b, m, size)
    ctx.seen('nb', b)


def buffer(ctx, rng, i):
    data = gen.blob(rng, rng.choice((10, 60, 600))) if i % 60 else rng.randbytes(rng.choice((65535, 65536, 65537, 70000, 131072, 140000)))
    b, model = ctx.ok('Buffer', Buffer, data), data
    hist = []
    for _ in range(rng.randrange(1, 14)):
        k = rng.randrange(8)
        if k <= 3:
            n = rng.choice((0, 1, 2, 3, 4, 8, 32, len(model), len(model) - 1, len(model) + 1, rng.randrange(40), len(model) // 2, rng.choice((2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, len(model) + 256, 2**16, 65535, 65536, 65537, 69999))))
            if n < 0:
                continue
            hist.append(n)
            if n > len(model):
                e = ctx.raises(Buffer.InsufficientData, 'read-beyond', b.read, n)
                ctx.true(str(n) in str(e) and str(len(model)) in str(e), 'message %r names neither %d nor %d' % (str(e), n, len(model)))
            else:
                r = ctx.ok('read', b.read, n)
                ctx.true(isinstance(r, bytes), 'read returns %r' % type(r))
                ctx.eq(r, model[:n], 'read(%d)' % n)
                model = model[n:]
        elif k == 4:
            d = rng.choice((bytes, bytearray, list))(gen.blob(rng, 40))
            ctx.ok('write', b.write, d)
            model += bytes(d)
        elif k == 5:
            v = gen.uint(rng, 64)
            ctx.ok('write', b.write, codec.varint(v))
            model += codec.varint(v)
        elif k == 6 and model:
            r = codec.Reader(model)
            try:
                v = r.varint()
            except EOFError:
                ctx.raises(Buffer.InsufficientData, 'bad-read_varint', b.read_varint)
                break
            ctx.eq(ctx.ok('read_varint', b.read_varint), v, 'read_varint')
            model = model[r.i:]
        ctx.eq(bytes(b), model, 'buffer content')
        ctx.eq(len(b), len(model), 'buffer length')
        ctx.eq(bool(b), bool(model), 'buffer truth')
    ctx.seen('b', data, tuple(hist))


def intb(ctx, rng, i):
    L = rng.randrange(1, 40)
    v = gen.uint(rng, 8 * L)
    big = rng.choice(('big', 'little'))
    b = v.to_bytes(L, big)
    ctx.eq(ctx.ok('to_bytes', intbytes.to_bytes, v, L, big), b, 'to_bytes')
    ctx.eq(ctx.ok('to_bytes', intbytes.to_bytes, v, length=L), v.to_bytes(L, 'big'), 'to_bytes')
    ctx.eq(ctx.ok('from_bytes', intbytes.from_bytes, b, big), v, 'from_bytes')
    ctx.eq(ctx.ok('from_bytes', intbytes.from_bytes, b), int.from_bytes(b, 'big'), 'from_bytes')
    ctx.eq(ctx.ok('from_bytes', intbytes.from_bytes, b, byteorder=big, signed=True), int.from_bytes(b, big, signed=True), 'from_bytes signed')
    ctx.raises(None, 'bad-to_bytes', intbytes.to_bytes, v + (1 << 8 * L), L, big)
    m = v.to_bytes((v.bit_length() + 7) // 8, 'big')
    ctx.eq(ctx.ok('int_to_bytes', intbytes.int_to_bytes, v), m, 'int_to_bytes')
    ctx.eq(ctx.ok('int_from_bytes', intbytes.int_from_bytes, m), v, 'int_from_bytes')
    ctx.eq(list(ctx.ok('bytes_to_ints', intbytes.bytes_to_ints, b)), list(b), 'bytes_to_ints')
    ctx.eq(ctx.ok('bytes_from_ints', intbytes.bytes_from_ints, list(b)), b, 'bytes_from_ints')
    ctx.eq(ctx.ok('bytes_from_int', intbytes.bytes_from_int, i % 256), bytes([i % 256]), 'bytes_from_int')
    ctx.seen('i', v, L)


SECTIONS = [('fixed', fixed, 40000, 800000), ('minimal', minimal, 40000, 800000), ('varint', varint, 40000, 800000), ('number', number, 20000, 400000),
            ('number_bytes', number_bytes, 24000, 500000), ('buffer', buffer, 30000, 600000), ('intbytes', intb, 10000, 200000)]
REQUIRE = {'encode': 20000, 'decode': 20000, 'varint': 5000, 'read_varint': 5000, 'encode-number': 5000, 'number': 10000, 'bad-number*': 2000, 'read': 3000,
           'read-beyond*': 500, 'bad-encode*': 5000, 'bad-varint*': 1000}
