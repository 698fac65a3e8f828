"""Independent model of Bitcoin script: parser, serializer, and a port of bitcoind's
EvalScript/VerifyScript (2015, with BIP16/62/65/66 flags) working on raw bytes."""
from . import ec, codec
from .codec import num_enc, num_dec, NumError, hash160, sha1, sha256, ripemd160, dsha
from .tx import sighash

OPS = dict(
    OP_0=0, OP_FALSE=0, OP_PUSHDATA1=76, OP_PUSHDATA2=77, OP_PUSHDATA4=78, OP_1NEGATE=79, OP_RESERVED=80,
    OP_TRUE=81,
    OP_NOP=97, OP_IF=99, OP_NOTIF=100, OP_ELSE=103, OP_ENDIF=104, OP_VERIFY=105, OP_RETURN=106,
    OP_TOALTSTACK=107, OP_FROMALTSTACK=108, OP_2DROP=109, OP_2DUP=110, OP_3DUP=111, OP_2OVER=112, OP_2ROT=113,
    OP_2SWAP=114, OP_IFDUP=115, OP_DEPTH=116, OP_DROP=117, OP_DUP=118, OP_NIP=119, OP_OVER=120, OP_PICK=121,
    OP_ROLL=122, OP_ROT=123, OP_SWAP=124, OP_TUCK=125, OP_CAT=126, OP_SUBSTR=127, OP_LEFT=128, OP_RIGHT=129,
    OP_SIZE=130, OP_INVERT=131, OP_AND=132, OP_OR=133, OP_XOR=134, OP_EQUAL=135, OP_EQUALVERIFY=136,
    OP_RESERVED1=137, OP_RESERVED2=138, OP_1ADD=139, OP_1SUB=140, OP_2MUL=141, OP_2DIV=142, OP_NEGATE=143,
    OP_ABS=144, OP_NOT=145, OP_0NOTEQUAL=146, OP_ADD=147, OP_SUB=148, OP_MUL=149, OP_DIV=150, OP_MOD=151,
    OP_LSHIFT=152, OP_RSHIFT=153, OP_BOOLAND=154, OP_BOOLOR=155, OP_NUMEQUAL=156, OP_NUMEQUALVERIFY=157,
    OP_NUMNOTEQUAL=158, OP_LESSTHAN=159, OP_GREATERTHAN=160, OP_LESSTHANOREQUAL=161, OP_GREATERTHANOREQUAL=162,
    OP_MIN=163, OP_MAX=164, OP_WITHIN=165, OP_RIPEMD160=166, OP_SHA1=167, OP_SHA256=168, OP_HASH160=169,
    OP_HASH256=170, OP_CODESEPARATOR=171, OP_CHECKSIG=172, OP_CHECKSIGVERIFY=173, OP_CHECKMULTISIG=174,
    OP_CHECKMULTISIGVERIFY=175, OP_NOP1=176, OP_CHECKLOCKTIMEVERIFY=177, OP_NOP3=178, OP_NOP4=179, OP_NOP5=180,
    OP_NOP6=181, OP_NOP7=182, OP_NOP8=183, OP_NOP9=184, OP_NOP10=185, OP_PUBKEYHASH=253, OP_PUBKEY=254,
    OP_INVALIDOPCODE=255)
for _i in range(1, 17):
    OPS['OP_%d' % _i] = 80 + _i
globals().update(OPS)

NAMES = {}
for _n, _v in OPS.items():
    if _n not in ('OP_FALSE', 'OP_TRUE'):
        NAMES[_v] = _n

DISABLED = {OPS['OP_' + n] for n in
            'CAT SUBSTR LEFT RIGHT INVERT AND OR XOR 2MUL 2DIV MUL DIV MOD LSHIFT RSHIFT'.split()}

P2SH, STRICTENC, DERSIG, LOW_S, NULLDUMMY, SIGPUSHONLY, MINIMALDATA, DISCOURAGE_NOPS, CLEANSTACK, CLTV = \
    (1 << i for i in range(10))


def get_op(s, pc):
    """Returns (opcode, data or None, next pc) or None when truncated."""
    op = s[pc]
    pc += 1
    if op > 78:
        return op, None, pc
    if op < 76:
        n = op
    else:
        w = {76: 1, 77: 2, 78: 4}[op]
        if pc + w > len(s):
            return None
        n = int.from_bytes(s[pc:pc + w], 'little')
        pc += w
    if pc + n > len(s):
        return None
    return op, s[pc:pc + n], pc + n


def parse(s):
    """List of (opcode, data); data is None exactly for non-push opcodes (OP_0 included). None if truncated."""
    s = bytes(s)
    out, pc = [], 0
    while pc < len(s):
        r = get_op(s, pc)
        if r is None:
            return None
        op, data, pc = r
        out.append((op, None if op == 0 or op > 78 else data))
    return out


def ser_op(op, data):
    if 1 <= op <= 75:
        assert len(data) == op
        return bytes([op]) + data
    if op in (76, 77, 78):
        return bytes([op]) + len(data).to_bytes({76: 1, 77: 2, 78: 4}[op], 'little') + data
    return bytes([op])


def serialize(ops):
    return b''.join(ser_op(o, d) for o, d in ops)


def push(data):
    """The shortest push opcode for this length (not using OP_N)."""
    n = len(data)
    op = n if n <= 75 else 76 if n <= 255 else 77 if n <= 65535 else 78
    return ser_op(op, data)


def minimal_push(op, data):
    if len(data) == 0:
        return op == 0
    if len(data) == 1 and 1 <= data[0] <= 16:
        return op == 80 + data[0]
    if len(data) == 1 and data[0] == 0x81:
        return op == 79
    if len(data) <= 75:
        return op == len(data)
    if len(data) <= 255:
        return op == 76
    if len(data) <= 65535:
        return op == 77
    return True


def cast_to_bool(b):
    b = bytes(b)
    for i, c in enumerate(b):
        if c:
            return not (i == len(b) - 1 and c == 0x80)
    return False


def cast_to_bool_known_defect(b):
    """bitforge's pinned behaviour (KNOWN_FINDINGS: F-CASTBOOL): a leading zero byte makes it false."""
    b = bytes(b)
    return bool(b) and b[0] != 0 and not (b == b'\x80')


def is_p2sh(s):
    return len(s) == 23 and s[0] == 169 and s[1] == 20 and s[22] == 135


def is_push_only(s):
    pc = 0
    while pc < len(s):
        r = get_op(s, pc)
        if r is None or r[0] > 96:
            return False
        pc = r[2]
    return True


def find_and_delete(script, b):
    """CScript::FindAndDelete at opcode boundaries."""
    if not b:
        return script
    out, pc, n = b'', 0, len(script)
    while True:
        while script[pc:pc + len(b)] == b:
            pc += len(b)
        if pc >= n:
            break
        r = get_op(script, pc)
        if r is None:
            out += script[pc:]
            break
        out += script[pc:r[2]]
        pc = r[2]
    return out


def remove_codeseparators(script):
    out, pc = b'', 0
    while pc < len(script):
        r = get_op(script, pc)
        if r is None:
            out += script[pc:]
            break
        if r[0] != 171:
            out += script[pc:r[2]]
        pc = r[2]
    return out


class ScriptFail(Exception):
    pass


class Machine:
    def __init__(self, tx=None, nin=0, flags=0, castbool=cast_to_bool, strict_sigs=True):
        self.tx, self.nin, self.flags, self.castbool = tx, nin, flags, castbool
        self.sig_ops_executed = 0      # CHECKSIG-family operations that had to judge >= 1 signature
        self.max_stack = 0
        self.ops_seen = set()
        self.err = None

    # -- signature checks ---------------------------------------------------------------------
    def _check_sig_encoding(self, sig):
        if not sig:
            return
        if self.flags & (DERSIG | LOW_S | STRICTENC) and not ec.bip66(sig):
            raise ScriptFail('SIG_DER')
        if self.flags & LOW_S:
            if ec.parse_der_strict(sig[:-1])[1] > ec.N // 2:
                raise ScriptFail('SIG_HIGH_S')
        if self.flags & STRICTENC and not 1 <= (sig[-1] & ~0x80) <= 3:
            raise ScriptFail('SIG_HASHTYPE')

    def _check_pub_encoding(self, pub):
        if self.flags & STRICTENC and not ((len(pub) == 33 and pub[0] in (2, 3)) or (len(pub) == 65 and pub[0] == 4)):
            raise ScriptFail('PUBKEYTYPE')

    def _check_sig(self, sig, pub, code):
        q = ec.parse_sec(pub, hybrid=True)
        if q is None or not sig or self.tx is None:
            return False
        rs = ec.parse_der_lax(sig[:-1])
        if rs is None:
            return False
        z = int.from_bytes(sighash(self.tx, remove_codeseparators(code), self.nin, sig[-1]), 'big')
        return ec.verify(q[0], z, *rs)

    def _check_lock(self, n):
        if self.tx is None:
            lock, seq = 0, 0xffffffff
        else:
            lock, seq = self.tx.lock, self.tx.vin[self.nin].seq
        T = 500000000
        if not ((lock < T and n < T) or (lock >= T and n >= T)):
            return False
        return n <= lock and seq != 0xffffffff

    # -- EvalScript -----------------------------------------------------------------------------
    def eval(self, script, stack):
        script = bytes(script)
        if len(script) > 10000:
            raise ScriptFail('SCRIPT_SIZE')
        fl = self.flags
        minimal = bool(fl & MINIMALDATA)
        alt, vf, nops, begin, pc = [], [], 0, 0, 0
        cb = self.castbool
        num = lambda b, size=4: num_dec(b, minimal, size)

        def need(n):
            if len(stack) < n:
                raise ScriptFail('INVALID_STACK_OPERATION')

        while pc < len(script):
            ex = all(vf)
            r = get_op(script, pc)
            if r is None:
                raise ScriptFail('BAD_OPCODE')
            op, data, pc = r
            if data is not None and len(data) > 520:
                raise ScriptFail('PUSH_SIZE')
            if op > 96:
                nops += 1
                if nops > 201:
                    raise ScriptFail('OP_COUNT')
            if op in DISABLED:
                raise ScriptFail('DISABLED_OPCODE')
            if ex:
                self.ops_seen.add(op)
            if ex and op <= 78:
                if minimal and not minimal_push(op, data):
                    raise ScriptFail('MINIMALDATA')
                stack.append(data)
            elif ex or 99 <= op <= 104:
                if op == 79 or 81 <= op <= 96:
                    stack.append(num_enc(op - 80))
                elif op == 97:
                    pass
                elif op == 177:
                    if not fl & CLTV:
                        if fl & DISCOURAGE_NOPS:
                            raise ScriptFail('DISCOURAGE_NOPS')
                    else:
                        need(1)
                        n = num(stack[-1], 5)
                        if n < 0:
                            raise ScriptFail('NEGATIVE_LOCKTIME')
                        if not self._check_lock(n):
                            raise ScriptFail('UNSATISFIED_LOCKTIME')
                elif op == 176 or 178 <= op <= 185:
                    if fl & DISCOURAGE_NOPS:
                        raise ScriptFail('DISCOURAGE_NOPS')
                elif op in (99, 100):
                    v = False
                    if ex:
                        if not stack:
                            raise ScriptFail('UNBALANCED')
                        v = cb(stack.pop())
                        if op == 100:
                            v = not v
                    vf.append(v)
                elif op == 103:
                    if not vf:
                        raise ScriptFail('UNBALANCED')
                    vf[-1] = not vf[-1]
                elif op == 104:
                    if not vf:
                        raise ScriptFail('UNBALANCED')
                    vf.pop()
                elif op == 105:
                    need(1)
                    if not cb(stack[-1]):
                        raise ScriptFail('VERIFY')
                    stack.pop()
                elif op == 106:
                    raise ScriptFail('OP_RETURN')
                elif op == 107:
                    need(1)
                    alt.append(stack.pop())
                elif op == 108:
                    if not alt:
                        raise ScriptFail('ALTSTACK')
                    stack.append(alt.pop())
                elif op == 109:
                    need(2); stack.pop(); stack.pop()
                elif op == 110:
                    need(2); stack.extend(stack[-2:])
                elif op == 111:
                    need(3); stack.extend(stack[-3:])
                elif op == 112:
                    need(4); stack.extend(stack[-4:-2])
                elif op == 113:
                    need(6); t = stack[-6:-4]; del stack[-6:-4]; stack.extend(t)
                elif op == 114:
                    need(4); t = stack[-4:-2]; del stack[-4:-2]; stack.extend(t)
                elif op == 115:
                    need(1)
                    if cb(stack[-1]):
                        stack.append(stack[-1])
                elif op == 116:
                    stack.append(num_enc(len(stack)))
                elif op == 117:
                    need(1); stack.pop()
                elif op == 118:
                    need(1); stack.append(stack[-1])
                elif op == 119:
                    need(2); del stack[-2]
                elif op == 120:
                    need(2); stack.append(stack[-2])
                elif op in (121, 122):
                    need(2)
                    n = num(stack.pop())
                    if n < 0 or n >= len(stack):
                        raise ScriptFail('INVALID_STACK_OPERATION')
                    v = stack[-n - 1]
                    if op == 122:
                        del stack[-n - 1]
                    stack.append(v)
                elif op == 123:
                    need(3); stack.append(stack.pop(-3))
                elif op == 124:
                    need(2); stack.append(stack.pop(-2))
                elif op == 125:
                    need(2); stack.insert(-2, stack[-1])
                elif op == 130:
                    need(1); stack.append(num_enc(len(stack[-1])))
                elif op in (135, 136):
                    need(2)
                    eq = stack.pop() == stack.pop()
                    if op == 136:
                        if not eq:
                            raise ScriptFail('EQUALVERIFY')
                    else:
                        stack.append(b'\x01' if eq else b'')
                elif op in (139, 140, 143, 144, 145, 146):
                    need(1)
                    n = num(stack[-1])
                    n = {139: n + 1, 140: n - 1, 143: -n, 144: abs(n), 145: int(n == 0), 146: int(n != 0)}[op]
                    stack[-1] = num_enc(n)
                elif 147 <= op <= 164:
                    if op not in (147, 148) and op < 154:
                        raise ScriptFail('BAD_OPCODE')
                    need(2)
                    a, b = num(stack[-2]), num(stack[-1])
                    n = {147: a + b, 148: a - b, 154: int(a != 0 and b != 0), 155: int(a != 0 or b != 0),
                         156: int(a == b), 157: int(a == b), 158: int(a != b), 159: int(a < b), 160: int(a > b),
                         161: int(a <= b), 162: int(a >= b), 163: min(a, b), 164: max(a, b)}[op]
                    del stack[-2:]
                    if op == 157:
                        if not n:
                            raise ScriptFail('NUMEQUALVERIFY')
                    else:
                        stack.append(num_enc(n))
                elif op == 165:
                    need(3)
                    x, lo, hi = num(stack[-3]), num(stack[-2]), num(stack[-1])
                    del stack[-3:]
                    stack.append(b'\x01' if lo <= x < hi else b'')
                elif 166 <= op <= 170:
                    need(1)
                    stack[-1] = {166: ripemd160, 167: sha1, 168: sha256, 169: hash160, 170: dsha}[op](stack[-1])
                elif op == 171:
                    begin = pc
                elif op in (172, 173):
                    need(2)
                    sig, pub = stack[-2], stack[-1]
                    self.sig_ops_executed += 1
                    code = find_and_delete(script[begin:], push(sig) if sig else b'\x00')
                    self._check_sig_encoding(sig)
                    self._check_pub_encoding(pub)
                    ok = self._check_sig(sig, pub, code)
                    del stack[-2:]
                    if op == 173:
                        if not ok:
                            raise ScriptFail('CHECKSIGVERIFY')
                    else:
                        stack.append(b'\x01' if ok else b'')
                elif op in (174, 175):
                    i = 1
                    need(i)
                    nk = num(stack[-i])
                    if not 0 <= nk <= 20:
                        raise ScriptFail('PUBKEY_COUNT')
                    nops += nk
                    if nops > 201:
                        raise ScriptFail('OP_COUNT')
                    ikey = i + 1
                    i = ikey + nk
                    need(i)
                    ns = num(stack[-i])
                    if not 0 <= ns <= nk:
                        raise ScriptFail('SIG_COUNT')
                    isig = i + 1
                    i = isig + ns
                    need(i)
                    if ns:
                        self.sig_ops_executed += 1
                    code = script[begin:]
                    for k in range(ns):
                        s_ = stack[-isig - k]
                        code = find_and_delete(code, push(s_) if s_ else b'\x00')
                    ok = True
                    while ok and ns > 0:
                        sig, pub = stack[-isig], stack[-ikey]
                        self._check_sig_encoding(sig)
                        self._check_pub_encoding(pub)
                        if self._check_sig(sig, pub, code):
                            isig += 1
                            ns -= 1
                        ikey += 1
                        nk -= 1
                        if ns > nk:
                            ok = False
                    del stack[-(i - 1):]
                    need(1)
                    if fl & NULLDUMMY and stack[-1]:
                        raise ScriptFail('SIG_NULLDUMMY')
                    stack.pop()
                    if op == 175:
                        if not ok:
                            raise ScriptFail('CHECKMULTISIGVERIFY')
                    else:
                        stack.append(b'\x01' if ok else b'')
                else:
                    raise ScriptFail('BAD_OPCODE')
            tot = len(stack) + len(alt)
            if tot > self.max_stack:
                self.max_stack = tot
            if tot > 1000:
                raise ScriptFail('STACK_SIZE')
        if vf:
            raise ScriptFail('UNBALANCED')

    def verify(self, sig, pub):
        """VerifyScript. Returns (verdict, error or None, final stack or None if evaluation was cut short)."""
        fl = self.flags
        stack = []
        try:
            if fl & SIGPUSHONLY and not is_push_only(sig):
                return False, 'SIG_PUSHONLY', None
            self.eval(sig, stack)
            copy = list(stack)
            self.eval(pub, stack)
            if not stack or not self.castbool(stack[-1]):
                return False, 'EVAL_FALSE', list(stack)
            if fl & P2SH and is_p2sh(pub):
                if not is_push_only(sig):
                    return False, 'SIG_PUSHONLY', None
                redeem = copy.pop()
                stack = copy
                self.eval(redeem, stack)
                if not stack or not self.castbool(stack[-1]):
                    return False, 'EVAL_FALSE', list(stack)
            return True, None, list(stack)
        except (ScriptFail, NumError) as e:
            return False, str(e), None


def verify(sig, pub, tx=None, nin=0, flags=0, castbool=cast_to_bool):
    m = Machine(tx, nin, flags, castbool)
    v, err, stack = m.verify(bytes(sig), bytes(pub))
    return v, err, stack, m
