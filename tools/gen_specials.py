"""Searches (once, offline) for rare keys: leading zero bytes in coordinates, hashes, child secrets; writes data/specials.json."""
import json, os, random, sys, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bfmon.ref import ec, codec, bip32

def keys(seed):
    rng = random.Random('special/%d' % seed)
    out = {}
    d = rng.randrange(1, ec.N // 2)
    Q = ec.gmul(d)
    for _ in range(45000):
        d += 1
        Q = ec.add(Q, ec.G)
        x, y = (c.to_bytes(32, 'big') for c in Q)
        hc, hu = codec.hash160(ec.sec(Q)), codec.hash160(ec.sec(Q, False))
        for n, b in (('x', x), ('y', y), ('hc', hc), ('hu', hu)):
            if b[:2] == b'\0\0':
                out.setdefault(n + '_00_00', []).append('%064x' % d)
            elif b[:1] == b'\0' and len(out.setdefault(n + '_00', [])) < 2:
                out[n + '_00'].append('%064x' % d)
            if b[-2:] == b'\0\0':
                out.setdefault(n + '_end_00_00', []).append('%064x' % d)
            if b[:2] == b'\xff\xff':
                out.setdefault(n + '_ff_ff', []).append('%064x' % d)
    return out

def hd(seed):
    rng = random.Random('hd/%d' % seed)
    out = {}
    for _ in range(1500):
        s = rng.randbytes(32)
        m = bip32.Node.seed(s)
        i = rng.choice((0, 1, 2**31, 2**31 + 1, rng.randrange(2**32)))
        c = m.child(i)
        for n, b in (('root_d', m.d.to_bytes(32, 'big')), ('root_chain', m.chain), ('child_d', c.d.to_bytes(32, 'big')),
                     ('child_chain', c.chain), ('root_fp', m.fp.to_bytes(4, 'big')), ('child_fp', c.fp.to_bytes(4, 'big')),
                     ('child_x', c.Q[0].to_bytes(32, 'big'))):
            if b[0] == 0 and len(out.setdefault(n, [])) < 2:
                out[n].append([s.hex(), i])
    return out

if __name__ == '__main__':
    ec.gmul(1)
    res = {'secrets': {}, 'hd': {}}
    with multiprocessing.Pool(8) as p:
        for d in p.map(keys, range(16)):
            for k, v in d.items():
                res['secrets'].setdefault(k, []).extend(v[:2])
        for d in p.map(hd, range(8)):
            for k, v in d.items():
                res['hd'].setdefault(k, []).extend(v[:1])
    res['secrets'] = {k: sorted(v)[:6] for k, v in sorted(res['secrets'].items())}
    res['hd'] = {k: sorted(v)[:5] for k, v in sorted(res['hd'].items())}
    json.dump(res, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'specials.json'), 'w'), indent=0)
    print({k: len(v) for k, v in res['secrets'].items()}, {k: len(v) for k, v in res['hd'].items()})
