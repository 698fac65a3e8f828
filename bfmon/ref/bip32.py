"""Independent BIP32 model."""
import hmac, hashlib
from . import ec
from .codec import hash160, b58check

VERS = {('livenet', True): 0x0488ade4, ('livenet', False): 0x0488b21e,
        ('testnet', True): 0x04358394, ('testnet', False): 0x043587cf}


class Node:
    """d: secret or None; Q: point"""
    def __init__(self, d, Q, chain, depth, index, parent, net='livenet'):
        self.d, self.chain, self.depth, self.index, self.parent, self.net = d, chain, depth, index, parent, net
        self.Q = Q if Q is not None else ec.gmul(d)

    @staticmethod
    def seed(seed, net='livenet'):
        I = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
        return Node(int.from_bytes(I[:32], 'big'), None, I[32:], 0, 0, 0, net)

    @property
    def fp(self):
        return int.from_bytes(hash160(ec.sec(self.Q))[:4], 'big')

    def public(self):
        return Node(None, self.Q, self.chain, self.depth, self.index, self.parent, self.net)

    def child(self, i):
        if i >= 1 << 31:
            if self.d is None:
                return None
            data = b'\0' + self.d.to_bytes(32, 'big')
        else:
            data = ec.sec(self.Q)
        I = hmac.new(self.chain, data + i.to_bytes(4, 'big'), hashlib.sha512).digest()
        il = int.from_bytes(I[:32], 'big')
        if self.d is not None:
            return Node((il + self.d) % ec.N, None, I[32:], self.depth + 1, i, self.fp, self.net)
        return Node(None, ec.add(ec.gmul(il), self.Q), I[32:], self.depth + 1, i, self.fp, self.net)

    def payload(self):
        key = b'\0' + self.d.to_bytes(32, 'big') if self.d is not None else ec.sec(self.Q)
        return (VERS[self.net, self.d is not None].to_bytes(4, 'big') + bytes([self.depth])
                + self.parent.to_bytes(4, 'big') + self.index.to_bytes(4, 'big') + self.chain + key)

    def text(self):
        return b58check(self.payload())
