"""Entropy: which bits of the system's entropy do generated values depend on, and what do real nonces look like."""
import os, pickle, threading
from .. import entropy
from ..lib import *

ID = 'C07'
RULE = ('keys and seeds generated and digests signed under scripted system entropy with single bits inverted, under extreme entropy, '
        'and under real entropy over long histories, in threads and after fork; nonces are recovered from signatures with the known '
        'secret; non-trivial: distinct generated key or recovered nonce')
ASSUMPTIONS = ['system entropy reaches Python through os.urandom, os.getrandom, random.SystemRandom, ssl.RAND_bytes or /dev/urandom']

MIN_BITS = 250


def nonce_of(ctx, d, z, sig):
    p = ec.parse_der_lax(sig)
    ctx.true(p is not None, 'unreadable signature')
    k = ec.nonce(d, int.from_bytes(z, 'big'), *p)
    ctx.true(ec.gmul(k)[0] % N == p[0] % N, 'signature does not match its digest')
    return min(k, N - k)


def makers(rng):
    d, z = gen.secret(rng), gen.digest(rng)
    net = NET[rng.choice(NETS)]
    comp = rng.random() < .5

    def key():
        return PrivateKey(None, net, comp).secret if rng2.random() < .5 else PrivateKey().secret

    def seed():
        h = HDPrivateKey.from_seed()
        return h.privkey.secret, h.chain
    rng2 = random_like(rng)
    return d, z, key, seed, (lambda: ec.parse_der_lax(PrivateKey(d).sign(z)))


def random_like(rng):
    import random
    return random.Random(rng.random())


HEAD = b'\x5a' * 4       # keeps candidates below the group order when single bits are inverted


def flips(ctx, rng, i):
    """All single-bit inversions, split over the cases: 64 bits of one object per case."""
    what = ('key', 'seed', 'sign')[i % 3]
    group = i // 3 % 8
    base_seed = (ctx.seed, what, i // 24)
    r2 = random_like_seed(base_seed)
    d, z = gen.secret(r2), gen.digest(r2)
    f = {'key': lambda: PrivateKey().secret, 'seed': lambda: HDPrivateKey.from_seed()[:2],
         'sign': lambda: PrivateKey(d).sign(z)}[what]

    def run(s):
        with entropy.scripted(s):
            v = ctx.ok(what, f)
        return v, s.used
    base, used = run(entropy.Script(base_seed, head=HEAD))
    again, _ = run(entropy.Script(base_seed, head=HEAD))
    other, _ = run(entropy.Script((base_seed, 'other')))
    bits = list(range(group, used * 8, 8))[:64] if used * 8 <= 512 else r2.sample(range(used * 8), 64)
    eff = 0
    for b in bits:
        v, _ = run(entropy.Script(base_seed, flip=b, head=HEAD))
        if v != base:
            eff += 1
    st = ctx.state.setdefault('eff', {})
    st[what, i // 24, group] = (used, eff, len(bits), base == other)
    ctx.event('flip-' + what, len(bits))
    ctx.seen('f', what, i // 24, group)
    if base == other:
        if what != 'sign':
            ctx.fail('%s is the same under different system entropy' % what)
        # a deterministic signature then: must not depend on anything else
        import random
        random.seed()
        a = [ctx.ok('sign', PrivateKey(d).sign, z) for _ in range(3)]
        ctx.true(all(x == base for x in a), 'nonce neither drawn from system entropy nor determined by key and message')
        ctx.event('deterministic signature')


def random_like_seed(s):
    import random
    return random.Random(repr(s))


def extremes(ctx, rng, i):
    """Entropy at the edges of the range, then ordinary: keys stay in 1..n-1 and usable."""
    heads = [b'\0' * 32, b'\xff' * 32, N.to_bytes(32, 'big'), (N - 1).to_bytes(32, 'big'), (N - 2).to_bytes(32, 'big'), (N + 1).to_bytes(32, 'big'),
             (1).to_bytes(32, 'big'), b'\0' * 64, b'\xff' * 640, b'\0' * 640, b'\x80' + b'\0' * 31, b'\xff' * 15 + b'\xfe' + b'\xff' * 16,
             N.to_bytes(32, 'little'), (N - 1).to_bytes(32, 'little'), b'\0' * 31 + b'\1', b'\0' * 33, b'\xff' * 33, b'\xff' * 31, gen.fill(rng, 32),
             (N - 1 - rng.randrange(3)).to_bytes(32, 'big'), (N + rng.randrange(3)).to_bytes(32, 'big') + bytes(32)]
    head = heads[i % len(heads)]
    with entropy.scripted(entropy.Script((ctx.seed, 'x', i), head=head)):
        k = ctx.ok('key-extreme', PrivateKey)
        ctx.true(isinstance(k.secret, int) and 1 <= k.secret < N, 'generated secret %r out of range' % (k.secret,))
        net = rng.choice(NETS)
        k = ctx.ok('key-extreme', PrivateKey, None, NET[net], bool(i % 2))
        ctx.true(1 <= k.secret < N and k.network.name == net and k.compressed == bool(i % 2), 'generated key %r' % (tuple(k),))
    with entropy.scripted(entropy.Script((ctx.seed, 'h', i), head=head)):
        h = ctx.ok('seed-extreme', HDPrivateKey.from_seed)
        ctx.true(1 <= h.privkey.secret < N and len(h.chain) == 32, 'generated HD key')
    if i % 4 == 0:
        z = gen.digest(rng)
        with entropy.scripted(entropy.Script((ctx.seed, 's', i), head=head)):
            o = ctx.call('sign-extreme', PrivateKey(5).sign, z)
        if o.ok:
            p = ec.parse_der_lax(o.value)
            ctx.true(p is not None and ec.verify(ec.gmul(5), int.from_bytes(z, 'big'), *p), 'signature under extreme entropy')
    ctx.seen('x', head, i)


# ---- histories under real entropy ------------------------------------------------------------------

def note(ctx, kind, d, z, v):
    ctx.state.setdefault(kind, []).append((d, z, v))
    ctx.seen(kind, v)


def keys(ctx, rng, i):
    n = [ctx.ok('key', PrivateKey).secret, ctx.ok('key', PrivateKey, None, NET[rng.choice(NETS)], rng.random() < .5).secret]
    for s in n:
        ctx.true(1 <= s < N, 'generated secret out of range')
        note(ctx, 'keys', 0, 0, s)
    if rng.random() < .05:
        h = ctx.ok('seed', HDPrivateKey.from_seed)
        note(ctx, 'keys', 0, 0, h.privkey.secret)
        note(ctx, 'chains', 0, 0, int.from_bytes(h.chain, 'big'))


POOL_Z = [bytes(32), b'\xff' * 32, b'\x11' * 32]


def signing(ctx, rng, i):
    """Few keys, few digests, random ones in between."""
    pool = ctx.state.setdefault('pool', [1, 2, N - 1, gen.secret(rng), gen.secret(rng)])
    d = rng.choice(pool) if rng.random() < .7 else gen.secret(rng)
    z = rng.choice(POOL_Z) if rng.random() < .5 else gen.digest(rng)
    kinds = ctx.state.setdefault('keyobj', {})
    k = kinds.setdefault(d, PrivateKey(d)) if rng.random() < .5 else PrivateKey(d, NET[rng.choice(NETS)], rng.random() < .5)
    if rng.random() < .1:
        import random
        random.seed(7)          # a user seeding the ordinary generator must not influence nonces
    note(ctx, 'nonces', d, z, nonce_of(ctx, d, z, ctx.ok('sign', k.sign, z)))


def transactions(ctx, rng, i):
    ks = [PrivateKey(gen.secret(rng)) for _ in range(2)]
    tid = rng.randbytes(32).hex()
    t = Transaction([AddressInput.create(tid, 0, ks[0].to_address()), AddressInput.create(tid, 1, ks[0].to_address()),
                     MultisigInput.create(tid, 2, [k.to_public_key() for k in ks], 2)], [DataOutput.create(b'x')])
    for j, kk in ((0, ks[:1]), (1, ks[:1]), (2, ks)):
        before = t
        t = ctx.ok('tx.sign', t.sign, kk, j)
        code = before.inputs[j].script.to_bytes()
        z = rtx.sighash(rtx.parse(before.to_bytes()), code, j, 1)
        for sig in [ins.data for ins in t.inputs[j].script.instructions if ins.data and ins.data[0] == 0x30 and len(ins.data) < 75]:
            p = ec.parse_der_lax(sig[:-1])
            for k in kk:
                if ec.verify(ec.gmul(k.secret), int.from_bytes(z, 'big'), *p):
                    note(ctx, 'nonces', k.secret, z, nonce_of(ctx, k.secret, z, sig[:-1]))
                    ctx.event('nonce of a signed input')


def threads(ctx, rng, i):
    out, errs = [], []
    z = gen.digest(rng)
    d = gen.secret(rng)
    from .c20 import Delays
    n = 8
    go = threading.Barrier(n)
    k = PrivateKey(d)

    def work():
        try:
            go.wait()
            for j in range(6):
                out.append((PrivateKey().secret if j else HDPrivateKey.from_seed().privkey.secret, (k if j % 2 else PrivateKey(d)).sign(z)))
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(n)]
    with Delays(rng, rng.choice((2, 3, 5, 9)), None) as sched:      # threads are switched at random lines of the code
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    ctx.event('injected switch', sched.switches)
    ctx.true(not errs, 'thread failed: %r' % errs)
    for s, sig in out:
        note(ctx, 'keys', 0, 0, s)
        note(ctx, 'nonces', d, z, nonce_of(ctx, d, z, sig))
        ctx.event('thread')


def forks(ctx, rng, i):
    """Parent and children draw from the same inherited state."""
    z, d = gen.digest(rng), gen.secret(rng)
    k = PrivateKey(d)
    k.sign(z), PrivateKey()
    res = []
    for c in range(3):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            try:
                os.write(w, pickle.dumps((PrivateKey().secret, k.sign(z), HDPrivateKey.from_seed().privkey.secret)))
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(p, 0)
        ctx.true(data, 'generation failed in a forked child')
        res.append(pickle.loads(data))
    for s, sig, hd in res:
        note(ctx, 'keys', 0, 0, s)
        note(ctx, 'keys', 0, 0, hd)
        note(ctx, 'nonces', d, z, nonce_of(ctx, d, z, sig))
        ctx.event('forked child')


def export(ctx):
    return {k: ctx.state.get(k, []) for k in ('keys', 'chains', 'nonces')} | {'eff': ctx.state.get('eff', {})}


def conclude(ctx, exports):
    eff = {}
    for e in exports:
        for (what, rnd, group), v in e['eff'].items():
            eff.setdefault((what, rnd), []).append(v)
    full = 0
    for (what, rnd), vs in eff.items():
        if vs[0][3]:            # deterministic (judged in flips)
            full += 1
            continue
        used = max(v[0] for v in vs)
        got, tried = sum(v[1] for v in vs), sum(v[2] for v in vs)
        if used * 8 <= 512 and len(vs) < 8:
            continue            # cut short
        bits = got if used * 8 <= 512 else used * 8 * got // tried
        full += 1
        ctx.true(bits >= MIN_BITS, '%s depends on only %d bits of system entropy (read %d bytes)' % (what, bits, used))
    ctx.event('entropy dependence measured', full)
    for kind in ('keys', 'chains', 'nonces'):
        for e in exports:
            series(ctx, kind, e[kind])
        together(ctx, kind, [x for e in exports for x in e[kind]], all(v[3] for (what, _), vs in eff.items() if what == 'sign' for v in vs))


def series(ctx, kind, xs):
    """Consecutive values of one process: no small or repeated steps or factors."""
    steps = {}
    for a, b in zip(xs, xs[1:]):
        if kind == 'nonces' and a[2] == b[2]:
            continue
        for v in {(b[2] - a[2]) % N, (b[2] + a[2]) % N}:
            v = min(v, N - v)
            ctx.true(v >= 1 << 128, '%s: consecutive values differ by only %x' % (kind, v))
            steps[v] = steps.get(v, 0) + 1
            ctx.true(steps[v] < 2, '%s: the step %x repeats' % (kind, v))
        q = b[2] * pow(a[2], -1, N) % N
        q = min(q, N - q)
        ctx.true(q >= 1 << 64, '%s: consecutive values have the ratio %d' % (kind, q))


def together(ctx, kind, xs, deterministic):
    seen, top, low = {}, {}, {}
    vals = []
    for d, z, v in xs:
        if v in seen:
            if kind == 'nonces' and seen[v] == (d, z) and deterministic:
                continue            # the same message signed again by the same key: deterministic signing
            ctx.fail('%s: value %x generated twice (%r and %r)' % (kind, v, seen[v], (d, z)))
        seen[v] = (d, z)
        vals.append(v)
        ctx.true(v >= 1 << 200 if kind == 'nonces' else v >= 1 << 190, '%s: %x is short' % (kind, v))
    for v in vals:
        t, l = v >> 191, v & (1 << 64) - 1
        l = min(l, (N - v) & (1 << 64) - 1) if kind == 'nonces' else l
        for tab, x, n in ((top, t, 'leading'), (low, l, 'trailing')):
            ctx.true(x not in tab, '%s: two values share their %s 64 bits (%x, %x)' % (kind, n, v, tab.get(x, 0)))
            tab[x] = v
    if len(vals) >= 200:
        for j in range(32):
            c = {}
            for v in vals:
                b = v >> 8 * j & 255
                if kind == 'nonces':
                    b = min(b, (N - v) >> 8 * j & 255)
                c[b] = c.get(b, 0) + 1
            if kind == 'nonces' and j == 31:
                lim = .2        # the canonical form halves the top byte's range
            else:
                lim = .15
            m = max(c.values())
            ctx.true(m <= lim * len(vals), '%s: byte %d is the same in %d of %d values' % (kind, j, m, len(vals)))
        if kind != 'nonces' and len(vals) >= 400:       # (a recovered nonce is known up to its sign only)
            for j in range(256):
                ones = sum(v >> j & 1 for v in vals)
                dev = abs(2 * ones - len(vals)) / len(vals) ** .5
                ctx.true(dev < 9, '%s: bit %d is set in %d of %d values' % (kind, j, ones, len(vals)))
        ctx.event('bias examined ' + kind)
    ctx.event('history of ' + kind, len(vals))


SECTIONS = [('flips', flips, 24, 240), ('extremes', extremes, 168, 4200), ('keys', keys, 12000, 200000), ('signing', signing, 600, 15000),
            ('transactions', transactions, 16, 400), ('threads', threads, 16, 320), ('forks', forks, 16, 320)]
REQUIRE = {'history of keys': 5000, 'history of nonces': 300, 'forked child': 16, 'thread': 400, 'injected switch': 2000, 'flip-key': 200, 'flip-seed': 200, 'flip-sign': 200,
           'entropy dependence measured': 3, 'nonce of a signed input': 20, 'bias examined nonces': 1, 'bias examined keys': 1}
