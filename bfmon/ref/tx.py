"""Independent transaction codec and legacy signature hash."""
from .codec import varint, dsha, Reader


class TxIn:
    __slots__ = ('prev', 'index', 'script', 'seq')     # prev: 32 raw bytes in wire order
    def __init__(self, prev, index, script, seq):
        self.prev, self.index, self.script, self.seq = prev, index, script, seq
    def ser(self):
        return (self.prev + self.index.to_bytes(4, 'little') + varint(len(self.script)) + self.script
                + self.seq.to_bytes(4, 'little'))
    def key(self):
        return (self.prev, self.index, self.script, self.seq)


class TxOut:
    __slots__ = ('amount', 'script')
    def __init__(self, amount, script):
        self.amount, self.script = amount, script
    def ser(self):
        return self.amount.to_bytes(8, 'little') + varint(len(self.script)) + self.script
    def key(self):
        return (self.amount, self.script)


class Tx:
    __slots__ = ('version', 'vin', 'vout', 'lock')
    def __init__(self, version, vin, vout, lock):
        self.version, self.vin, self.vout, self.lock = version, vin, vout, lock
    def ser(self):
        return (self.version.to_bytes(4, 'little')
                + varint(len(self.vin)) + b''.join(i.ser() for i in self.vin)
                + varint(len(self.vout)) + b''.join(o.ser() for o in self.vout)
                + self.lock.to_bytes(4, 'little'))
    def txid(self):
        return dsha(self.ser())[::-1].hex()
    def key(self):
        return (self.version, tuple(i.key() for i in self.vin), tuple(o.key() for o in self.vout), self.lock)


def parse(b):
    r = Reader(b)
    version = r.le(4)
    vin = []
    for _ in range(r.varint()):
        prev = r.read(32)
        idx = r.le(4)
        script = r.read(r.varint())
        vin.append(TxIn(prev, idx, script, r.le(4)))
    vout = []
    for _ in range(r.varint()):
        amount = r.le(8)
        vout.append(TxOut(amount, r.read(r.varint())))
    lock = r.le(4)
    if r.i != len(r.b):
        raise ValueError('trailing bytes')
    return Tx(version, vin, vout, lock)


ALL, NONE, SINGLE, ANYONECANPAY = 1, 2, 3, 0x80


def sighash(tx, script_code, nin, hashtype):
    """Bitcoin's SignatureHash; script_code must already have OP_CODESEPARATORs removed."""
    if nin >= len(tx.vin):
        return (1).to_bytes(32, 'little')
    base = hashtype & 0x1f
    if base == SINGLE and nin >= len(tx.vout):
        return (1).to_bytes(32, 'little')
    vin = []
    for i, t in enumerate(tx.vin):
        if hashtype & ANYONECANPAY and i != nin:
            continue
        seq = t.seq
        if i != nin and base in (NONE, SINGLE):
            seq = 0
        vin.append(TxIn(t.prev, t.index, script_code if i == nin else b'', seq))
    if base == NONE:
        vout = []
    elif base == SINGLE:
        vout = [TxOut(2**64 - 1, b'')] * nin + [tx.vout[nin]]
    else:
        vout = tx.vout
    m = Tx(tx.version, vin, vout, tx.lock).ser() + hashtype.to_bytes(4, 'little')
    return dsha(m)
