from fractions import Fraction
from ..lib import *

ID = 'C21'
RULE = ('whole satoshi amounts over 0..21e14 (boundaries, powers, decimal patterns, amounts whose binary fractions round badly) through every unit; decimal text of '
        'every precision; rates of any magnitude; non-trivial: distinct amount and unit')
MAX = 21 * 10**14
UNITS = {'satoshis': 0, 'bits': 2, 'mbtc': 5, 'btc': 8}      # decimal digits


def amount(rng):
    k = rng.randrange(9)
    if k == 0:
        n = rng.choice((0, 1, 2, 9, 10, 99, 100, 101, 99999, 100000, 100001, 99999999, 10**8, 10**8 + 1, MAX, MAX - 1, MAX // 2, 2**31, 2**32, 2**32 + 1, 2**50, 2**51 - 1))
    elif k == 1:
        n = rng.randrange(MAX + 1)
    elif k == 2:
        n = rng.randrange(10**rng.randrange(1, 16))
    elif k == 3:
        n = MAX - rng.randrange(10**6)
    elif k == 4:
        n = 10**rng.randrange(16) * rng.randrange(1, 100) + rng.choice((-1, 0, 1))
    elif k == 5:
        n = int(''.join(rng.choice('0949') for _ in range(rng.randrange(1, 16))))
    elif k == 6:
        n = rng.choice(gen.DICT)
    elif k == 7:
        n = 2**rng.randrange(51) + rng.choice((-1, 0, 1))
    else:
        n = rng.randrange(2 * 10**15, MAX)
    return n if 0 <= n <= MAX else rng.randrange(MAX + 1)


def exact(ctx, u, n, what):
    ctx.true(isinstance(u, Unit), what)
    ctx.eq(u.satoshis, n, what)
    ctx.true(isinstance(u.satoshis, int) and not isinstance(u.satoshis, bool), '%s: satoshis is %s' % (what, type(u.satoshis).__name__))
    for unit, digits in UNITS.items():
        v = getattr(u, unit)
        f = Fraction(v)
        ctx.true(abs(f - Fraction(n, 10**digits)) <= Fraction(n, 10**digits) / 10**14, '%s: %s of %d satoshis is %r' % (what, unit, n, v))
        back = ctx.ok('back-' + unit, lambda: Unit(**{unit: v}))
        ctx.eq(back.satoshis, n, '%s: %r %s back to satoshis' % (what, v, unit))


def whole(ctx, rng, i):
    n = amount(rng)
    u = ctx.ok('satoshis', Unit, n) if rng.random() < .5 else ctx.ok('satoshis', lambda: Unit(satoshis=n))
    exact(ctx, u, n, 'Unit(satoshis=%d)' % n)
    ctx.true(str(n) in str(u) and str(n) in repr(u), 'text of %d satoshis: %r' % (n, str(u)))
    ctx.seen(n)
    ctx.sample(satoshis=n, btc=u.btc)


def text(n, digits, rng):
    """n satoshis as decimal text in a unit of 10**digits satoshis."""
    s = str(n).rjust(digits + 1, '0')
    s = s[:-digits] + '.' + s[-digits:] if digits else s
    if digits and rng.random() < .6:
        s = s.rstrip('0')
    return s[:-1] if s.endswith('.') else s


def decimal(ctx, rng, i):
    n = amount(rng)
    for unit, digits in UNITS.items():
        s = text(n, digits, rng)
        v = float(s)
        u = ctx.ok('decimal-' + unit, lambda: Unit(**{unit: v}))
        exact(ctx, u, n, 'Unit(%s=%s)' % (unit, s))
        if n % 10**digits == 0:
            w = n // 10**digits
            ctx.eq(ctx.ok('int-' + unit, lambda: Unit(**{unit: w})).satoshis, n, 'Unit(%s=%d)' % (unit, w))
    ctx.seen('d', n)


def rates(ctx, rng, i):
    n = amount(rng)
    rate = rng.choice((1, 2, 250, 300.5, 0.01, 1e-6, 1e6, 65000, 1 / 3, float(rng.randrange(1, 10**6)) / 100, rng.randrange(1, 10**6), 10**rng.uniform(-6, 6)))
    u = Unit(satoshis=n)
    want = Fraction(n, 10**8) * Fraction(rate)
    got = Fraction(ctx.ok('at_rate', u.at_rate, rate))
    ctx.true(abs(got - want) <= want / 10**12, '%d satoshis at %r: %r' % (n, rate, float(got)))
    back = ctx.ok('from_fiat', Unit.from_fiat, float(want), rate)
    ctx.true(abs(back.satoshis - n) <= n // 10**14, 'from_fiat(%r, %r) is %d satoshis, expected %d' % (float(want), rate, back.satoshis, n))
    # a sum of money chosen independently of the amount
    value = rng.choice((0, 1, 5, 0.01, 99.99, rng.randrange(10**6), float(rng.randrange(10**8)) / 100, 10**rng.uniform(-3, 6)))
    x = Fraction(value) / Fraction(rate) * 10**8
    if x <= MAX:
        u = ctx.ok('from_fiat', Unit.from_fiat, value, rate)
        ctx.true(abs(u.satoshis - x) <= Fraction(1, 2) + x / 10**12, 'from_fiat(%r, %r) is %d satoshis, expected %r' % (value, rate, u.satoshis, float(x)))
        if x > 10**6:
            y = Fraction(u.at_rate(rate))
            ctx.true(abs(y - Fraction(value)) <= Fraction(value) / 10**5, 'from_fiat(%r, %r).at_rate' % (value, rate))
    ctx.seen('r', n, rate, value)


def nounit(ctx, rng, i):
    ctx.raises(ValueError, 'no-unit', Unit)
    ctx.raises(ValueError, 'no-unit', lambda: Unit(**{k: None for k in UNITS if rng.random() < .5}))
    for unit in UNITS:
        for z in (0, 0.0):
            ctx.eq(ctx.ok('zero', lambda: Unit(**{unit: z})).satoshis, 0, 'Unit(%s=%r)' % (unit, z))


SECTIONS = [('whole', whole, 40000, 800000), ('decimal', decimal, 16000, 320000), ('rates', rates, 20000, 400000), ('no-unit', nounit, 80, 800)]
REQUIRE = {'satoshis': 20000, 'back-*': 80000, 'decimal-*': 20000, 'at_rate': 10000, 'from_fiat': 10000, 'no-unit*': 80, 'zero': 80}
