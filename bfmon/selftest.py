"""Checks the reference models themselves against published vectors and the independent 'ecdsa' package.
Run by setup_cmd; does not import bitforge."""
import hashlib, json, os, random, re, sys
from .ref import ec, codec, tx as rtx, script as rs, bip32
from .gen import VERIF

FLAGS = {'P2SH': rs.P2SH, 'STRICTENC': rs.STRICTENC, 'DERSIG': rs.DERSIG, 'LOW_S': rs.LOW_S, 'NULLDUMMY': rs.NULLDUMMY,
         'SIGPUSHONLY': rs.SIGPUSHONLY, 'MINIMALDATA': rs.MINIMALDATA, 'DISCOURAGE_UPGRADABLE_NOPS': rs.DISCOURAGE_NOPS,
         'CHECKLOCKTIMEVERIFY': rs.CLTV, 'NONE': 0}


def asm(s):
    """The script notation of bitcoind's test vectors."""
    out = b''
    for w in s.split():
        if re.fullmatch(r'-?[0-9]+', w):
            n = int(w)
            out += bytes([0]) if n == 0 else bytes([80 + n]) if n == -1 or 1 <= n <= 16 else rs.push(codec.num_enc(n))
        elif w.startswith('0x'):
            out += bytes.fromhex(w[2:])
        elif w.startswith("'") and w.endswith("'"):
            out += rs.push(w[1:-1].encode()) if len(w) > 2 else b'\0'
        else:
            n = w[3:] if w.startswith('OP_') else w
            n = {'NOP2': 'CHECKLOCKTIMEVERIFY'}.get(n, n)
            out += bytes([rs.OPS['OP_' + n]])
    return out


def tx_vectors(name):
    n = good = 0
    for row in json.load(open(os.path.join(VERIF, 'data', name))):
        if not isinstance(row[0], list):
            continue
        prev = {(h, i & 0xffffffff): asm(s) for h, i, s in row[0]}
        if isinstance(row[2], str) and set(row[2].split(',')) - set(FLAGS):
            continue        # later rules (CHECKSEQUENCEVERIFY, ...)
        fl = sum({FLAGS[f] for f in row[2].split(',')}) if isinstance(row[2], str) else rs.P2SH if row[2] else 0
        t = rtx.parse(bytes.fromhex(row[1]))
        ok = bool(t.vin and t.vout)
        for i, txin in enumerate(t.vin):
            k = (txin.prev[::-1].hex(), txin.index)
            if k not in prev:
                ok = None
                break
            ok = ok and rs.verify(txin.script, prev[k], t, i, fl)[0]
        n += 1
        yield ok, row


def main():
    rng = random.Random(1)
    import ecdsa
    G = ecdsa.SECP256k1.generator
    for d in [1, 2, 3, ec.N - 1] + [rng.randrange(1, ec.N) for _ in range(12)]:
        q = G * d
        assert ec.gmul(d) == ec.mul(d, ec.G) == (q.x(), q.y())
    for _ in range(4):
        d, z = rng.randrange(1, ec.N), rng.getrandbits(256)
        k = ec.rfc6979_k(d, z % ec.N)
        h = (z % ec.N).to_bytes(32, 'big')
        from ecdsa.rfc6979 import generate_k
        assert k == generate_k(ec.N, d, hashlib.sha256, h)
        r, s = ec.sign_k(d, z, k)
        assert ec.verify(ec.gmul(d), z, r, s) and not ec.verify(ec.gmul(d), z ^ 1, r, s)
        assert ec.gmul(d) in ec.recover(z, r, s)
        vk = ecdsa.SigningKey.from_secret_exponent(d, curve=ecdsa.SECP256k1).get_verifying_key()
        assert vk.verify_digest(ec.der(r, s), z.to_bytes(32, 'big'), sigdecode=ecdsa.util.sigdecode_der)
        assert ec.parse_der_strict(ec.der(r, s)) == (r, s) == ec.parse_der_lax(ec.der(r, s))
    # RFC 6979 / secp256k1 vectors in common use (Trezor, CoreBitcoin)
    for d, m, k in ((1, b'Satoshi Nakamoto', 0x8F8A276C19F4149656B280621E358CCE24F5F52542772691EE69063B74F15D15),
                    (1, b'All those moments will be lost in time, like tears in rain. Time to die...',
                     0x38AA22D72376B4DBC472E06C3BA403EE0A394DA63FC58D88686C611ABA98D6B3),
                    (ec.N - 1, b'Satoshi Nakamoto', 0x33A19B60E25FB6F4435AF53A3D42D493644827367E6453928554F43E49AA6F90)):
        assert ec.rfc6979_k(d, int.from_bytes(hashlib.sha256(m).digest(), 'big')) == k
    # BIP32 vectors
    m = bip32.Node.seed(bytes(range(16)))
    assert m.text() == 'xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi'
    c = m.child(2**31)
    assert c.text() == 'xprv9uHRZZhk6KAJC1avXpDAp4MDc3sQKNxDiPvvkX8Br5ngLNv1TxvUxt4cV1rGL5hj6KCesnDYUhd7oWgT11eZG7XnxHrnYeSvkzY7d2bhkJ7'
    assert c.public().text() == 'xpub68Gmy5EdvgibQVfPdqkBBCHxA5htiqg55crXYuXoQRKfDBFA1WEjWgP6LHhwBZeNK1VTsfTFUHCdrfp1bgwQ9xv5ski8PX9rL2dZXvgGDnw'
    assert c.child(1).public().text() == c.public().child(1).text() == 'xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ'
    m = bip32.Node.seed(bytes.fromhex('fffcf9f6f3f0edeae7e4e1dedbd8d5d2cfccc9c6c3c0bdbab7b4b1aeaba8a5a29f9c999693908d8a8784817e7b7875726f6c696663605d5a5754514e4b484542'))
    assert m.text() == 'xprv9s21ZrQH143K31xYSDQpPDxsXRTUcvj2iNHm5NUtrGiGG5e2DtALGdso3pGz6ssrdK4PFmM8NSpSBHNqPqm55Qn3LqFtT2emdEXVYsCzC2U'
    assert m.child(0).text() == 'xprv9vHkqa6EV4sPZHYqZznhT2NPtPCjKuDKGY38FBWLvgaDx45zo9WQRUT3dKYnjwih2yJD9mkrocEZXo1ex8G81dwSM1fwqWpWkeS3v86pgKt'
    # base58check and addresses: the genesis coinbase key
    pk = bytes.fromhex('04678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5f')
    assert codec.b58check(b'\0' + codec.hash160(pk)) == '1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa' and ec.parse_sec(pk)
    assert codec.b58check_dec('1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa') == b'\0' + codec.hash160(pk)
    for n in (0, 1, -1, 127, 128, -127, -128, 255, 256, 32767, 32768, -32768, 2**31 - 1, -2**31):
        assert codec.num_dec(codec.num_enc(n), True, 5) == n
    assert codec.num_enc(-255) == b'\xff\x80' and codec.num_enc(128) == b'\x80\0' and codec.num_enc(-127) == b'\xff'
    # transaction vectors of bitcoind: every signature hash and script rule
    nv = ni = 0
    for ok, row in tx_vectors('tx_valid.json'):
        if row[2] is not None and ok is not None:
            assert ok, row
            nv += 1
    for ok, row in tx_vectors('tx_invalid.json'):
        ni += not ok
    print('reference models agree with the vectors: %d valid transactions accepted, %d invalid ones refused' % (nv, ni))
    assert nv > 50


if __name__ == '__main__':
    main()
