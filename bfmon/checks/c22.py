import math, re
from fractions import Fraction
from urllib.parse import unquote_plus, quote, quote_plus
from ..lib import *

ID = 'C22'
RULE = ('payment requests with any address, boundary amounts and Unicode / delimiter-laden texts, built, read back and read by an independent parser; hand-written URIs with '
        'other but equivalent spellings; hostile strings for is_valid; non-trivial: distinct URI or string')
ASSUMPTIONS = ['parameter texts are non-empty and encodable as UTF-8', 'extra parameters have names other than address, amount, message, label and r, which mean something else']
MAX = 21 * 10**14
MEMBERS = ('message', 'label', 'r')


def address(rng):
    return codec.b58check(bytes([rng.choice((0, 5, 111, 196))]) + gen.fill(rng, 20))


def amount(rng):
    from . import c21
    return c21.amount(rng)


CHARS = 'aZ09 .-_~!*\'();:@&=+$,/?#[]%"<>\\^`{|}\n\t\r\0\x7f\x80é☃漢\U0001f600\u202e\ufeff\xa0'


def param(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice(('a', '0', ' ', '+', '%', '%20', '%2B', '&', '=', '#', '?', 'a&b=c', 'a=b', 'amount=1', '&amount=2', '\n', ' x ', '%00', '&amp;', ';', 'a;b', 'http://x/?a=b&c=d#e',
                           'None', 'nan', '1e-8', 'é', '☃', '\0', '\ud7ff', '\U0010ffff', '%C3%A9', '%ff', '++', '  '))
    if k == 1:
        return ''.join(rng.choice(CHARS) for _ in range(rng.randrange(1, 30)))
    if k == 2:
        return ''.join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(1, 40)))
    if k == 3:
        return ''.join(chr(rng.choice((rng.randrange(1, 0xd800), rng.randrange(0xe000, 0x110000)))) for _ in range(rng.randrange(1, 12)))
    if k == 4:
        return rng.randbytes(rng.randrange(1, 20)).decode('latin1')
    if k == 5:
        t = gen.text(rng)
        t = t.encode('utf8', 'ignore').decode()
        return t or 'x'
    return rng.choice(('donation', 'Luke-Jr', 'Donation for project xyz', 'https://example.com/pay?id=42'))


def request(rng):
    """(fields, extras)"""
    f = {'address': address(rng)}
    if rng.random() < .7:
        f['amount'] = amount(rng)
    for k in MEMBERS:
        if rng.random() < .4:
            f[k] = param(rng)
    ex = {}
    for _ in range(rng.choice((0, 0, 1, 2, 4)) if rng.random() < .97 else rng.choice((11, 17, 40, 130, 300))):
        k = rng.choice(('req-x', 'time', 'Amount', 'AMOUNT', 'R', 'Label', 'x', 'amounts', 'req-amount', 'address2', 'extras', 'Message', 'to_uri', 'parse', '__class__', 'rr')) if rng.random() < .6 else param(rng)
        if k not in MEMBERS + ('address', 'amount'):
            ex[k] = param(rng)
    return f, ex


def read(s):
    """Independent reader of a built URI: (address, [(key, value)])."""
    m = re.fullmatch(r'bitcoin:([1-9A-HJ-NP-Za-km-z]+)(?:\?([\x21-\x7e]*))?', s)
    if not m or '#' in s:
        return None
    q = []
    for item in (m.group(2) or '').split('&'):
        if item:
            k, sep, v = item.partition('=')
            if not sep:
                return None
            q.append((unquote_plus(k, errors='strict'), unquote_plus(v, errors='strict')))
    return m.group(1), q


def same(ctx, u, f, ex, what):
    ctx.true(isinstance(u, URI), what)
    ctx.eq(u.address, Address.from_string(f['address']), what + ': address')
    ctx.eq(u.address.to_string(), f['address'], what + ': address')
    if 'amount' in f:
        ctx.true(u.amount is not None, what + ': amount lost')
        ctx.eq(u.amount.satoshis, f['amount'], what + ': amount')
    else:
        ctx.true(u.amount is None, what + ': amount appeared')
    for k in MEMBERS:
        ctx.eq(getattr(u, k, None), f.get(k), '%s: %s' % (what, k))
    ctx.eq(u.extras, ex, what + ': extras')


def built(ctx, rng, i):
    f, ex = request(rng)
    d = dict(list(f.items()) + list(ex.items()))
    keep = dict(d)
    u = ctx.ok('from-dict', URI, d)
    ctx.eq(d, keep, 'the dictionary given')
    same(ctx, u, f, ex, 'built')
    s = ctx.ok('to_uri', u.to_uri)
    r = read(s)
    ctx.true(r is not None, 'built URI %r' % s)
    ctx.eq(r[0], f['address'], 'address in %r' % s)
    got = dict(r[1])
    ctx.eq(len(got), len(r[1]), 'repeated parameters in %r' % s)
    want = {k: v for k, v in f.items() if k in MEMBERS}
    want.update(ex)
    if 'amount' in f:
        a = got.pop('amount', '')
        ctx.true(re.fullmatch(r'[0-9]+(\.[0-9]{1,8})?', a), 'amount of %d satoshis is written %r' % (f['amount'], a))
        ctx.eq(Fraction(a) * 10**8, Fraction(f['amount']), 'amount in %r' % s)
    ctx.eq(got, want, 'parameters in %r' % s)
    same(ctx, ctx.ok('from-text', URI, s), f, ex, 'read back from %r' % s)
    ctx.true(ctx.ok('is_valid', URI.is_valid, s) is True, 'is_valid(%r)' % s)
    ctx.eq(ctx.ok('to_uri', ctx.ok('from-text', URI, s).to_uri), s, 'built again')
    ctx.true(s in ctx.ok('repr', repr, u), 'repr')
    p = ctx.ok('parse', URI.parse, s)
    ctx.eq(p.get('address'), f['address'], 'parse: address')
    ctx.eq({k: v for k, v in p.items() if k not in ('address', 'amount')}, want, 'parse: parameters')
    ctx.seen(s)
    ctx.sample(uri=s)


def written(ctx, rng, i):
    """URIs as other programs write them."""
    f, ex = request(rng)
    items = [(k, v) for k, v in list(f.items()) + list(ex.items()) if k != 'address']
    rng.shuffle(items)
    q = []
    for k, v in items:
        if k == 'amount':
            t = '%d.%08d' % divmod(v, 10**8)
            t = rng.choice((t, t.rstrip('0'), t.rstrip('0').rstrip('.'), '0' + t))
            t = t if t.strip('.') else '0'
            q.append('amount=' + t)
        else:
            e = rng.choice((lambda x: quote(x, safe=''), quote_plus, lambda x: ''.join('%%%02x' % c for c in x.encode())))
            q.append(e(k) + '=' + e(v))
    s = rng.choice(('bitcoin:', 'bitcoin:', 'bitcoin:', 'bitcoin://', 'BITCOIN:', 'Bitcoin:')) + f['address'] + ('?' + '&'.join(q) if q else '')
    if 'bitcoin:' not in s:
        o = ctx.call('from-text', URI, s)       # the case of the scheme may matter or not
        if not o.ok:
            return
        u = o.value
    else:
        u = ctx.ok('from-text', URI, s)
        ctx.true(ctx.ok('is_valid', URI.is_valid, s) is True, 'is_valid(%r)' % s)
    same(ctx, u, f, ex, 'read from %r' % s)
    ctx.event('written')
    ctx.seen(s)


NUMS = ['nan', 'NaN', '-nan', 'inf', '-inf', 'Infinity', '+inf', '1e400', '-1e400', '1e308', '1e309', '1e301', '9' * 400, '9' * 5000, 'abc', '0x10', '1,5', '1.2.3', '--1', '', ' ', '+', '-', '.', 'e', '1e', '1e+', '०',
        '1 BTC', '1btc', '$1', '1/2', 'None', 'True', '%', '%00', '\0', '½', 'infinity', 'iNf', 'nan(1)', '1__0', '_1', '1_', '٣', '1e-400', '-0', '0.1', '20.3', '1e-8', '-1', '00', '1.', '.5', '1' * 310]


def verdict(ctx, s, how):
    v = ctx.ok('valid?', URI.is_valid, s)
    ctx.true(v is True or v is False, 'is_valid(%r) is %r' % (s, v))
    o = ctx.call('construct?', URI, s)
    ctx.true(o.ok == v, 'is_valid(%r) is %s but URI(...) %r' % (s, v, o))
    if v:
        # only for a bitcoin: URI with a valid address and a finite amount, if any
        t = re.sub('[\t\r\n]', '', s.lstrip(''.join(map(chr, range(33)))))
        m = re.match(r'(?i)bitcoin:(?://)?([^?#]*)', t)
        ctx.true(m is not None, 'is_valid(%r): not a bitcoin: URI' % s)
        a = m.group(1).rstrip(''.join(map(chr, range(33))))
        raw = codec.b58check_dec(a)
        ctx.true(raw is not None and len(raw) == 21 and raw[0] in (0, 5, 111, 196), 'is_valid(%r): %r is not an address' % (s, a))
        ctx.eq(o.value.address.to_string(), a, 'address read from %r' % s)
        q = t.partition('#')[0].partition('?')[2]
        for item in q.split('&'):
            k, sep, x = item.partition('=')
            if sep and x and unquote_plus(k) == 'amount':
                try:
                    last = float(unquote_plus(x))
                except ValueError:
                    last = math.nan
        amounts = [x for k, sep, x in (item.partition('=') for item in q.split('&')) if sep and x and unquote_plus(k) == 'amount']
        if amounts:
            ctx.true(math.isfinite(last), 'is_valid(%r): amount is not a finite number' % s)
            ctx.event('accepted with an amount')
    ctx.event(('accepted-' if v else 'refused-') + how)
    ctx.seen(s)


def hostile(ctx, rng, i):
    k = rng.randrange(10)
    a = address(rng)
    if k == 0:
        x = rng.choice(NUMS) if rng.random() < .8 else param(rng)
        verdict(ctx, 'bitcoin:%s?amount=%s' % (a, x if rng.random() < .5 else quote(x, safe='')), 'amount')
    elif k == 1:
        f, ex = request(rng)
        verdict(ctx, gen.mutate_text(rng, URI(dict(f, **ex)).to_uri()), 'mutated')
    elif k == 2:
        verdict(ctx, rng.choice(('', 'bitcoin', 'litecoin:', 'bitcoin::', 'http:', 'http://', 'bitcoins:', 'xbitcoin:', ':', '//', 'bitcoin=', 'BITCOIN:', ' bitcoin:', 'bit\ncoin:', 'bitcoin:\t', 'bitcoin//', 'mailto:', 'javascript:')) + a, 'scheme')
    elif k == 3:
        b = rng.choice((gen.mutate_text(rng, a), codec.b58check(bytes([rng.randrange(256)]) + gen.fill(rng, 20)), codec.b58check(bytes([0]) + gen.fill(rng, rng.choice((19, 21, 0, 33)))), '', a + a, '/' + a, a + '/', a.lower(), param(rng)))
        verdict(ctx, 'bitcoin:' + b + rng.choice(('', '?amount=1', '?', '#x', '?label=x')), 'address')
    elif k == 4:
        verdict(ctx, 'bitcoin:' + rng.choice(('//[', '//]', '//[::1', '//[::1]', '///', '//@', '//a:b@', '//' + a + ':99999', '//℀', '//\u2100', '//' + a + '@', '//' + a + '/x', '//[v1.x]', '//[' + a + ']', '//[x')) + rng.choice(('', a, '?amount=1')), 'netloc')
    elif k == 5:
        verdict(ctx, gen.text(rng, 80), 'text')
    elif k == 6:
        verdict(ctx, 'bitcoin:' + gen.text(rng, 80), 'text')
    elif k == 7:
        verdict(ctx, 'bitcoin:%s?%s' % (a, gen.text(rng, 80)), 'query')
    elif k == 8:        # another address elsewhere in the URI
        verdict(ctx, rng.choice(('bitcoin:%s?address=%s', 'bitcoin:%s?amount=1&address=%s', 'bitcoin:%s?to=%s', 'bitcoin:%s?%s', 'bitcoin:%s#%s', 'bitcoin:%s;%s', 'bitcoin:%s/%s', 'bitcoin:%s?x=1#address=%s', 'bitcoin:%s@%s', 'bitcoin://%s@%s',
                                 'bitcoin:%s,%s', 'bitcoin:%s?address=x&address=%s', 'bitcoin:%s?Address=%s')) % (rng.choice((a, a, '', gen.mutate_text(rng, a), 'x')), address(rng)), 'second')
    else:
        verdict(ctx, 'bitcoin:%s?%s' % (a, '&'.join(rng.choice(('amount', 'label', 'amount', 'x', '', 'Amount', 'am%6funt', 'address', 'r', 'message')) + rng.choice(('=', '', '==')) + rng.choice(NUMS + ['1', '2', '0.5', 'x'])
                                                    for _ in range(rng.randrange(1, 5)))), 'query')


EDGES = [chr(c) for c in range(33, 127)] + ['//', '/.', './', '%20', '%00', '%0a', '%2f', '/index', ';x', ':8333', '@', '\xa0', '\u200b', '\ufeff', '\u3000', '\0', '\x1f', '\x7f', '\x85', '\u2028', '1', '11']


def edges(ctx, rng, i):
    """Something before, after or inside the address."""
    a, e = address(rng), EDGES[i % len(EDGES)]
    k = rng.randrange(1, len(a))
    for b in (e + a, a + e, e + a + e, a[:k] + e + a[k:], a + e * 2):
        verdict(ctx, rng.choice(('bitcoin:', 'bitcoin:', 'bitcoin://')) + b + rng.choice(('', '', '?amount=1', '?label=x', '?', '#x')), 'edge')


def others(ctx, rng, i):
    """Addresses in dictionaries are checked too; other argument types are refused."""
    f, ex = request(rng)
    f['address'] = rng.choice((gen.mutate_text(rng, f['address']), '', param(rng)))
    raw = codec.b58check_dec(f['address'])
    if raw is None or len(raw) != 21 or raw[0] not in (0, 5, 111, 196):
        ctx.raises(Address.Error, 'bad-address', URI, dict(f, **ex))
    ctx.raises(ValueError, 'bad-argument', URI, rng.choice((None, 1, [], (), 1.5)))
    s = rng.choice(('litecoin:', 'http://', 'bitcoi:', '', 'bitcoins:')) + address(rng)
    ctx.raises(ValueError, 'bad-scheme', URI.parse, s)
    ctx.true(URI.is_valid(s) is False, 'is_valid(%r)' % s)


SECTIONS = [('built', built, 12000, 240000), ('written', written, 12000, 240000), ('hostile', hostile, 24000, 480000), ('edges', edges, 2400, 40000), ('others', others, 3000, 40000)]
REQUIRE = {'to_uri': 10000, 'written': 8000, 'refused-amount': 800, 'accepted-amount': 300, 'refused-address': 800, 'refused-scheme': 800, 'refused-edge': 4000, 'refused-mutated': 500, 'accepted-query': 300, 'bad-address!*': 1000, 'accepted with an amount': 300}
