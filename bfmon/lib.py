"""What the checks share: the public API under test, and small builders."""
import os, sys
sys.path.insert(0, os.environ.get('BFMON_REPO', '/repo')) if os.environ.get('BFMON_REPO', '/repo') not in sys.path else None
import bitforge
from bitforge import (PrivateKey, PublicKey, Address, Script, Opcode, Instruction, HDPrivateKey, HDPublicKey, Unit, URI,
                      Transaction, Input, AddressInput, ScriptInput, MultisigInput, Output, AddressOutput, ScriptOutput,
                      MultisigOutput, DataOutput, networks)
from bitforge.errors import BitforgeError
from . import gen
from .ref import ec, codec, tx as rtx, script as rs, bip32
from .gen import N, P, NETS, VERSIONS

NET = {'livenet': networks.livenet, 'testnet': networks.testnet}
HEXDIGITS = set('0123456789abcdefABCDEF')


def is_hex(s):
    return len(s) % 2 == 0 and all(c in HEXDIGITS for c in s)


def pair(pt):
    return (pt[0], pt[1])


def points(rng):
    """A curve point with unusual coordinates (or a random one), by the reference model."""
    k = rng.randrange(8)
    if k == 0:
        x = rng.randrange(1, 2000)
    elif k == 1:
        x = P - rng.randrange(1, 2000)
    elif k == 2:
        x = gen.uint(rng, 256) % P
    elif k == 3:
        x = rng.choice(gen.DICT) % P
    elif k == 4:
        q = small_y(rng)
        return q
    elif k == 5:
        return ec.gmul(gen.secret(rng))
    elif k == 6:
        x = int.from_bytes(gen.fill(rng, 32), 'big') % P
    else:
        x = rng.randrange(P)
    while True:
        q = ec.lift_x(x, rng.randrange(2))
        if q:
            return q
        x = (x + 1) % P


def small_y(rng):
    """A point with a very small (or very large) y coordinate."""
    y = rng.randrange(1, 5000)
    while True:
        c = (y * y - 7) % P
        x = pow(c, (P + 2) // 9, P)
        if pow(x, 3, P) == c:
            return (x, y if rng.random() < .5 else P - y)
        y += 1


def privkey(rng, secret=None):
    net, comp = rng.choice(NETS), rng.random() < .5
    return PrivateKey(gen.secret(rng) if secret is None else secret, NET[net], comp), net, comp


HALF = pow(2, -1, N)        # the nonce whose R has the shortest known x (21 bytes)
SHORT_R = [HALF, N - HALF] + [d for d in gen.SPECIAL_SECRETS if ec.gmul(d)[0] >> 248 == 0]


class steered:
    """Entropy that makes the signer draw the nonces `ks`, if it draws them as 32 bytes plus one; real entropy afterwards
    and for any other request.  Only opens rare cases: nothing is concluded from whether it worked."""
    def __init__(self, ks):
        self.ks = list(ks)

    def __enter__(self):
        self.real = os.urandom

        def urandom(n):
            if n == 32 and self.ks:
                return (self.ks.pop(0) - 1).to_bytes(32, 'big')
            return self.real(n)
        os.urandom = urandom

    def __exit__(self, *a):
        os.urandom = self.real
        return False
