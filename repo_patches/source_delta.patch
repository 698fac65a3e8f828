From 120fc03e03a1fd8ae4bad3940f653a269fd2edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:52 +0000
Subject: [PATCH 01/63] fix: render error messages on Python 3, where
 exceptions have no message attribute

---
 bitforge/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/errors.py b/bitforge/errors.py
index 8bcd3f8..a8acc4c 100644
--- a/bitforge/errors.py
+++ b/bitforge/errors.py
@@ -4,8 +4,8 @@ class BitforgeError(Exception):
     def __init__(self, *args, **kwargs):
         self.cause = kwargs.pop('cause', None)
         self.prepare(*args, **kwargs)
-        message = self.__doc__.format(**self.__dict__)
-        super(BitforgeError, self).__init__(message)
+        self.message = self.__doc__.format(**self.__dict__)
+        super(BitforgeError, self).__init__(self.message)
 
     def prepare(self):
         pass
-- 
2.43.0


From 0cb8936e293e7cf22c195ec7a150b73b03bfc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 02/63] fix: hash160 called digest() on bytes, so OP_HASH160
 always failed

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 6c2f3fe..277bd9c 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -129,7 +129,7 @@ def ripemd160(bytes):
 
 
 def hash160(bytes):
-    return ripemd160(sha256(bytes)).digest()
+    return ripemd160(sha256(bytes))
 
 
 def decode_script_number(bytes, f_require_minimal = False, size = 4):
-- 
2.43.0


From 078efd3aea8973afa6a633b02cb80ff093587fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 03/63] fix: report non-ASCII text as invalid hexadecimal

---
 bitforge/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 277bd9c..d0374ee 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -111,8 +111,8 @@ def encode_hex(bytes):
 def decode_hex(string):
     try:
         return binascii.unhexlify(string)
-    except (TypeError, binascii.Error):
-        # unhexlify() throws 2 different exceptions (length, and alphabet)
+    except (TypeError, ValueError):
+        # unhexlify() throws different exceptions (length, alphabet, non-ASCII)
         raise InvalidHex(string)
 
 
-- 
2.43.0


From a0eb5346796902f44c9465ecf3dd4713d828a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 04/63] fix: script numbers may use all of the allowed bytes,
 not one less

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index d0374ee..e11efc6 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -140,7 +140,7 @@ def decode_script_number(bytes, f_require_minimal = False, size = 4):
     to input a number bigger than 4 bytes. A third argument, `size`, is provided
     to extend the hard limit of 4 bytes, as some usages require more than 4 bytes.
     """
-    if len(bytes) >= size:
+    if len(bytes) > size:
         raise InvalidScriptNumber(bytes)
 
     if f_require_minimal and len(bytes) > 0:
-- 
2.43.0


From eec05b4a254f0b3380bea409f55a20ca8e2bfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 05/63] fix: raise when an integer doesn't fit its field,
 instead of truncating it

---
 bitforge/encoding.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index e11efc6..42e422c 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,7 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
-from .errors import StringError
+from .errors import StringError, NumberError
 
 
 class EncodingError(StringError):
@@ -18,6 +18,10 @@ class InvalidHex(EncodingError):
     "The string {string} is not valid hexadecimal"
 
 
+class InvalidInteger(NumberError):
+    "The integer {number} is negative, or doesn't fit in the requested length"
+
+
 class InvalidScriptNumber(EncodingError):
     "The script number {string} is too long"
 
@@ -39,6 +43,9 @@ def decode_base58h(string):
 
 
 def encode_int(integer, big_endian = True, length = None):
+    if integer < 0 or (length is not None and integer >> (8 * length)):
+        raise InvalidInteger(integer)
+
     if integer == 0:
         return chr(0) if length is None else chr(0) * length
 
@@ -49,7 +56,7 @@ def encode_int(integer, big_endian = True, length = None):
         integer >>= 8
 
     if length is not None:
-        zeros = bytearray(length) # TODO if number can't fit in length, raise
+        zeros = bytearray(length)
         data = (data + zeros)[:length]
 
     if big_endian:
-- 
2.43.0


From 688d2ffa48e4ed685b1155a9194172cc97b5f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 06/63] fix: Buffer.read() returns immutable bytes, so parsed
 Scripts can be hashed

---
 bitforge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/tools.py b/bitforge/tools.py
index 1f91d7e..c99038e 100644
--- a/bitforge/tools.py
+++ b/bitforge/tools.py
@@ -20,7 +20,7 @@ class Buffer(bytearray):
         if len(self) < amount:
             raise Buffer.InsufficientData(len(self), amount)
 
-        ret = self[:amount]
+        ret = bytes(self[:amount])
         del self[:amount]
         return ret
 
-- 
2.43.0


From 2636b96049bd3d2dd2ea907a72336dcb04cdb947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 07/63] fix: serialize the length of variable-length pushes
 (TypeError on Python 3)

---
 bitforge/script/instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 1bf3faf..74aebb9 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -95,8 +95,9 @@ class Instruction(BaseInstruction):
 
             length_bytes = encode_int(
                 len(self.data),
-                big_endian = False
-            ).rjust(length_nbytes, '\0')
+                big_endian = False,
+                length = length_nbytes
+            )
 
             return opcode_byte + length_bytes + self.data
 
-- 
2.43.0


From 2910e91a3dd79219c8a06c0f2a50b72a194d40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 08/63] fix: is_minimal_push() failed or misjudged every data
 push

---
 bitforge/script/instruction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 74aebb9..cbf7764 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -60,21 +60,21 @@ class Instruction(BaseInstruction):
         Comes from bitcoind's script interpreter CheckMinimalPush function.
         Returns if the instruction is the smallest way to push that particular data.
         """
-        if not self.data:
+        if self.data is None:
             return True
 
         if len(self.data) == 0:
             # Could have used OP_0.
             return self.opcode == OP_0
-        elif len(self.data) == 1 and 1 <= decode_int(self.data[0]) <= 16:
+        elif len(self.data) == 1 and 1 <= decode_int(self.data) <= 16:
             # Could have used OP_1 .. OP_16
-            return self.opcode.number == OP_1.number + decode_int(self.data[0]) - 1
-        elif len(self.data) == 1 and decode_int(self.data[0]) == 0x81:
+            return self.opcode.number == OP_1.number + decode_int(self.data) - 1
+        elif len(self.data) == 1 and decode_int(self.data) == 0x81:
             # Could have used OP_1NEGATE
             return self.opcode == OP_1NEGATE
         elif len(self.data) <= 75:
             # Could have used a direct push (opcode indicating number of bytes pushed + those bytes).
-            return self.opcode.number == len(self.data.length)
+            return self.opcode.number == len(self.data)
         elif len(self.data) <= 255:
             # Could have used OP_PUSHDATA.
             return self.opcode == OP_PUSHDATA1
-- 
2.43.0


From 47e2ebc30c20f5b8a980855a2a2d76a041e69c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 09/63] fix: classify scripts that start with a push without
 raising AttributeError

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 6c1a74a..845b0b1 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -278,9 +278,9 @@ class RedeemMultisig(Script):
 
         return (
             len(structure) >= 4 and
-            structure[0].is_number() and
-            structure[-2].is_number() and
             structure[-1] == OP_CHECKMULTISIG and
+            structure[0] != 'PUSH' and structure[0].is_number() and
+            structure[-2] != 'PUSH' and structure[-2].is_number() and
             all(op == 'PUSH' for op in structure[1:-2])
         )
 
-- 
2.43.0


From 345f300585a38312d90035784b85db70461478af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 10/63] fix: parse the text form of the empty script

---
 bitforge/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 845b0b1..488444a 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -86,7 +86,7 @@ class Script(BaseScript):
     @staticmethod
     def from_string(string):
         instructions = []
-        tokens = (i for i in string.split(' '))
+        tokens = (i for i in string.split())
 
         def get_opcode(token):
             try:
-- 
2.43.0


From 06deacefb333a1ae25d15853584f1fccd9fc3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 11/63] fix: opcodes without an assigned meaning can be printed

---
 bitforge/script/opcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index 4ab386c..6b965d9 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -192,7 +192,7 @@ class Opcode(object):
         if self.is_const_push():
             return "_PUSH_%d_BYTES" % self.number
         else:
-            return Opcode.opcode_number_to_name[self.number]
+            return Opcode.opcode_number_to_name.get(self.number, 'OP_UNKNOWN')
 
     def is_number(self):
         return self == OP_0 or (OP_1 <= self <= OP_16)
-- 
2.43.0


From 3d7b7d0a18548429506528242632d70e6c9a8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 12/63] fix: Input.create() with other scripts raised NameError

---
 bitforge/transaction/input.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4857dba..f2f7ebc 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -47,11 +47,8 @@ class Input(BaseInput):
         elif isinstance(script, PayToScriptIn):
             return ScriptInput(*args)
 
-        elif isinstance(script, OpReturnOut):
-            return DataOutput(*args)
-
         else:
-            return Output(amount, script)
+            return Input(*args)
 
     def to_bytes(self):
         buffer = Buffer()
-- 
2.43.0


From 4c637733fd61d670091511fab00f1f3cfbc88972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 13/63] fix: serialize transactions to bytes on Python 3

---
 bitforge/transaction/input.py       | 2 +-
 bitforge/transaction/output.py      | 2 +-
 bitforge/transaction/transaction.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index f2f7ebc..1d69ce1 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -69,7 +69,7 @@ class Input(BaseInput):
         # Sequence number, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 5b13aad..311f037 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -50,7 +50,7 @@ class Output(BaseOutput):
         # Script body (? bytes):
         buffer.write(script)
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 75b6765..82d2559 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -72,7 +72,7 @@ class Transaction(BaseTransaction):
         # Transaction lock time, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.lock_time, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From 9db152bdf93079cefc89be67bb1324c1cf0e363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 14/63] fix: parsed Inputs hold their tx_id as text, equal to
 the original

---
 bitforge/transaction/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 1d69ce1..544c42c 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -104,7 +104,7 @@ class Input(BaseInput):
     @classmethod
     def from_buffer(cls, buffer):
         # Inverse operation of Input.to_bytes(), check that out.
-        tx_id     = encode_hex(buffer.read(32)[::-1]) # reversed
+        tx_id     = encode_hex(buffer.read(32)[::-1]).decode('utf-8') # reversed
         txo_index = decode_int(buffer.read(4), big_endian = False)
 
         script_len = buffer.read_varint()
-- 
2.43.0


From d634d55f08dc3521058d16a213a05aa2ff2ba6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 15/63] fix: Transaction.get_id() is the reversed hash, as
 text, usable as a tx_id

---
 bitforge/transaction/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 82d2559..15fd45e 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -81,7 +81,7 @@ class Transaction(BaseTransaction):
         return sha256(sha256(self.to_bytes()))
 
     def get_id(self):
-        return encode_hex(self.get_id_bytes())
+        return encode_hex(self.get_id_bytes()[::-1]).decode('utf-8')
 
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
-- 
2.43.0


From c666ce11d472e3748f7b71da9c62dffee65993bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 16/63] fix: MultisigOutput pays to the script hash, as
 MultisigInput redeems it

---
 bitforge/transaction/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 311f037..ea5b2d2 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -95,7 +95,7 @@ class MultisigOutput(ScriptOutput):
     @classmethod
     def create(cls, amount, pubkeys, min_signatures):
         redeem_script = RedeemMultisig.create(pubkeys, min_signatures)
-        return cls(amount, redeem_script)
+        return super(MultisigOutput, cls).create(amount, redeem_script)
 
 
 class DataOutput(Output):
-- 
2.43.0


From 78b5618147bbfeb2ee24c07f486f417e5fc5fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 17/63] fix: AddressOutput to a script address pays to the
 script hash

---
 bitforge/transaction/output.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index ea5b2d2..bdafa02 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -4,6 +4,8 @@ import collections
 from bitforge.encoding import *
 from bitforge.errors import *
 from bitforge.tools import Buffer
+from bitforge.address import Address
+from bitforge.script.opcode import OP_HASH160, OP_EQUAL
 from bitforge.script import Script, PayToPubkeyOut, PayToScriptOut, RedeemMultisig, OpReturnOut
 
 
@@ -78,7 +80,11 @@ class AddressOutput(Output):
 
     @classmethod
     def create(cls, amount, address):
-        script = PayToPubkeyOut.create(address)
+        if address.type == Address.Type.Script:
+            script = Script.compile([ OP_HASH160, address.phash, OP_EQUAL ])
+        else:
+            script = PayToPubkeyOut.create(address)
+
         return cls(amount, script)
 
 
-- 
2.43.0


From 5943dc3b852bdb32ef41aea1800629c803960447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 18/63] fix: MultisigInput.can_sign() on testnet, and with a
 repeated key

---
 bitforge/transaction/input.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 544c42c..8d871f4 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -181,10 +181,15 @@ class MultisigInput(ScriptInput):
         if len(privkeys) != self.script.get_min_signatures():
             return False
 
-        expected_pubkeys = self.script.get_public_keys()
+        # PublicKeys in a Script carry no network, so compare them as bytes:
+        expected_pubkeys = [ pk.to_bytes() for pk in self.script.get_public_keys() ]
 
         for privkey in privkeys:
-            if privkey.to_public_key() not in expected_pubkeys:
+            pubkey = privkey.to_public_key().to_bytes()
+
+            if pubkey not in expected_pubkeys:
                 return False
 
+            expected_pubkeys.remove(pubkey) # the same key can't sign twice
+
         return True
-- 
2.43.0


From aee8419f5b70b4a2f77778c6c1df13d9c7d2aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 19/63] fix: MultisigInput signatures follow the order of the
 public keys

---
 bitforge/transaction/input.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 8d871f4..2fbc97f 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -177,6 +177,17 @@ class MultisigInput(ScriptInput):
 
         return cls(tx_id, txo_index, placeholder_script, seq_number)
 
+    def sign(self, privkeys, payload, sigtype = SIGHASH_ALL):
+        # OP_CHECKMULTISIG wants signatures in the same order as the PublicKeys
+        pairs = [ pubkey.pair for pubkey in self.script.get_public_keys() ]
+
+        def position(privkey):
+            pair = privkey.to_public_key().pair
+            return pairs.index(pair) if pair in pairs else len(pairs)
+
+        privkeys = sorted(privkeys, key = position)
+        return super(MultisigInput, self).sign(privkeys, payload, sigtype)
+
     def can_sign(self, privkeys):
         if len(privkeys) != self.script.get_min_signatures():
             return False
-- 
2.43.0


From 530f9d9c991fe6380f5c07f998fa4aa1156efddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 20/63] fix: PrivateKey.verify() checks the digest that sign()
 signs

---
 bitforge/privkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 4bcaa3d..8319c05 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -135,7 +135,7 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From e404a9b0f25ee0223d0479fc03cd260a32b60fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 21/63] fix: Networks are hashable, and so are the keys and
 addresses holding them

---
 bitforge/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/networks.py b/bitforge/networks.py
index 80c5fa4..ee1fa01 100644
--- a/bitforge/networks.py
+++ b/bitforge/networks.py
@@ -35,12 +35,12 @@ testnet = Network(
     magic      = 0x0b110907,
 
     port  = 18333,
-    seeds = [
+    seeds = (
         'testnet-seed.bitcoin.petertodd.org',
         'testnet-seed.bluematt.me',
         'testnet-seed.alexykot.me',
         'testnet-seed.bitcoin.schildbach.de'
-    ]
+    )
 )
 
 default = livenet = Network(
@@ -54,14 +54,14 @@ default = livenet = Network(
   magic      = 0xf9beb4d9,
 
   port  = 8333,
-  seeds = [
+  seeds = (
     'seed.bitcoin.sipa.be',
     'dnsseed.bluematt.me',
     'dnsseed.bitcoin.dashjr.org',
     'seed.bitcoinstats.com',
     'seed.bitnodes.io',
     'bitseed.xf2.org'
-  ]
+  )
 )
 
 _networks = [livenet, testnet]
-- 
2.43.0


From c100fb9fb2a58ca1a4a7f70d518c32cf5770df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 22/63] fix: refuse public keys with missing or trailing bytes

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f8508d1..4e081cd 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -231,6 +231,8 @@ def public_pair_to_sec(public_pair, compressed=True):
 
 def sec_to_public_pair(sec):
     """Convert a public key in sec binary format to a public pair."""
+    if len(sec) != (33 if is_sec_compressed(sec) else 65):
+        raise EncodingError("bad sec length for public key")
     x = from_bytes_32(sec[1:33])
     sec0 = sec[:1]
     if sec0 == b'\4':
-- 
2.43.0


From 10c5f90a6d3188f4e49279b5260e5291470cd669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 23/63] fix: refuse public keys with coordinates beyond the
 field

---
 bitforge/utils/ecdsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 920f4ee..0f3f682 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -122,7 +122,9 @@ def public_pair_for_x(generator, x, is_even):
     return (x, beta)
 
 def is_public_pair_valid(generator, public_pair):
-    return generator.curve().contains_point(public_pair[0], public_pair[1])
+    p = generator.curve().p()
+    x, y = public_pair
+    return 0 <= x < p and 0 <= y < p and generator.curve().contains_point(x, y)
 
 def verify(generator, public_pair, val, signature):
     """
-- 
2.43.0


From 586b9fa7abecb1c02946f4f2baf32195608d3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 24/63] fix: verify() raised TypeError when the signature leads
 to infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 0f3f682..11cd6d5 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -143,6 +143,7 @@ def verify(generator, public_pair, val, signature):
     u1 = ( val * c ) % n
     u2 = ( r * c ) % n
     point = u1 * G + u2 * ellipticcurve.Point( G.curve(), public_pair[0], public_pair[1], G.order() )
+    if point == ellipticcurve.INFINITY: return False
     v = point.x() % n
     return v == r
 
-- 
2.43.0


From 61551b2df683e888a087114b8ae98c5e5385a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 25/63] fix: reduce the value in deterministic_generate_k() as
 RFC 6979 does

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 11cd6d5..d2aaf13 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -59,7 +59,7 @@ def deterministic_generate_k(generator_order, secret_exponent, val, hash_f=hashl
     shift = 8 * hash_size - bit_length(n)
     if shift > 0:
         val >>= shift
-    if val > n:
+    if val >= n:
         val -= n
     h1 = intbytes.to_bytes(val, length=order_size)
     k = hmac.new(k, v + b'\x00' + priv + h1, hash_f).digest()
-- 
2.43.0


From 81c0525a5f240347161e17af8950da84037424c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 26/63] fix: modular_sqrt() needs integer division on Python 3

---
 bitforge/utils/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/numbertheory.py b/bitforge/utils/numbertheory.py
index f2df00f..232a33d 100755
--- a/bitforge/utils/numbertheory.py
+++ b/bitforge/utils/numbertheory.py
@@ -56,7 +56,7 @@ def modular_sqrt(a, p):
     s = p - 1
     e = 0
     while s % 2 == 0:
-        s /= 2
+        s //= 2
         e += 1
 
     # Find some 'n' with a legendre symbol n|p = -1.
-- 
2.43.0


From 5de45e5e23ec64ef804137bea6503ba3ba421801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 27/63] fix: intbytes.from_bytes() ignored byteorder

---
 bitforge/utils/intbytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/intbytes.py b/bitforge/utils/intbytes.py
index 5fb15e3..47a620f 100644
--- a/bitforge/utils/intbytes.py
+++ b/bitforge/utils/intbytes.py
@@ -36,7 +36,7 @@ bytes_from_ints = (lambda l: b''.join(chr(x) for x in l)) if bytes == str else b
 if hasattr(int, "to_bytes"):
     to_bytes = lambda v, length, byteorder="big": v.to_bytes(length, byteorder=byteorder)
     from_bytes = lambda bytes, byteorder="big", signed=False: int.from_bytes(
-        bytes, byteorder="big", signed=signed)
+        bytes, byteorder=byteorder, signed=signed)
     int_to_bytes = lambda v: v.to_bytes((v.bit_length()+7)//8, byteorder="big")
     int_from_bytes = lambda v: int.from_bytes(v, byteorder="big")
 else:
-- 
2.43.0


From d51f07151f7f5f3fa56eb19439114216623e5524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 28/63] fix: validate_signature() on Python 3

---
 bitforge/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/signature.py b/bitforge/signature.py
index 1ccf21e..2e707ef 100644
--- a/bitforge/signature.py
+++ b/bitforge/signature.py
@@ -9,7 +9,7 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def validate_signature(sig):
     # Minimum and maximum size constraints.
-    sig = map(ord, sig)
+    sig = bytearray(sig)
 
     if (len(sig) < 9): return False;
     if (len(sig) > 73): return False;
-- 
2.43.0


From 32907988d91d6a8d5adbc60faf5c6ea07cc88737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 29/63] fix: round amounts to the nearest satoshi, 0.29 BTC
 lost one

---
 bitforge/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/unit.py b/bitforge/unit.py
index a45a58a..6b2df7d 100644
--- a/bitforge/unit.py
+++ b/bitforge/unit.py
@@ -25,7 +25,7 @@ class Unit(object):
             raise ValueError('Invalid arguments')
 
     def _set_values(self, satoshis):
-        self.satoshis = int(satoshis)
+        self.satoshis = int(round(satoshis))
         self.bits = self.satoshis / Unit.bits
         self.mbtc = self.satoshis / Unit.mbtc
         self.btc = self.satoshis / Unit.btc
-- 
2.43.0


From 311c8989598da62dfff467fc7b4dee69ee6a75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 30/63] fix: serialize extended keys on Python 3

---
 bitforge/hdprivkey.py | 4 ++--
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index fdacda3..6c1f78c 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -64,13 +64,13 @@ class HDPrivateKey(BaseHDPrivateKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_private_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
             + to_bytes(self.index, length = 4)
             + self.chain
-            + '\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
+            + b'\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
             + self.to_private_key().to_bytes()
         )
 
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index ac4e0e9..489fea6 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -50,7 +50,7 @@ class HDPublicKey(BaseHDPublicKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_public_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
-- 
2.43.0


From 6ab70f6b0fd0c822c26f7253ba1019b8773514ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 31/63] fix: HDPrivateKey.derive() raised on every call

---
 bitforge/hdprivkey.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 6c1f78c..6a7b07f 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -84,7 +84,7 @@ class HDPrivateKey(BaseHDPrivateKey):
             index += HARDENED_START
 
         if hardened:
-            key = '\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
+            key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
 
@@ -94,7 +94,7 @@ class HDPrivateKey(BaseHDPrivateKey):
             hashlib.sha512
         ).digest()
 
-        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().seed) % utils.generator_secp256k1.order()
+        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
         depth   = self.depth + 1
-- 
2.43.0


From 8d07552de96a79ec2912c24ffc762edda300108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 32/63] fix: derive() used the index of the parent, giving the
 same key for all children

---
 bitforge/hdprivkey.py | 2 +-
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 6a7b07f..91cf844 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -90,7 +90,7 @@ class HDPrivateKey(BaseHDPrivateKey):
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 489fea6..f729322 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -75,7 +75,7 @@ class HDPublicKey(BaseHDPublicKey):
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-- 
2.43.0


From be9e4b70ba3bd515941d0bd9895e7fd123852c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 33/63] fix: child indexes from 0x80000000 are hardened (BIP32)

---
 bitforge/hdprivkey.py | 2 +-
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 91cf844..e206065 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -83,7 +83,7 @@ class HDPrivateKey(BaseHDPrivateKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index f729322..944f17e 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -68,7 +68,7 @@ class HDPublicKey(BaseHDPublicKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             raise ValueError("Hardened derivation is not posible on HDPublicKey")
         else:
             key = self.to_public_key().to_bytes()
-- 
2.43.0


From e0491e60a9316cf6e176320bad6b629fd13e454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 34/63] fix: refuse extended keys with missing or trailing
 bytes

---
 bitforge/hdprivkey.py | 3 +++
 bitforge/hdpubkey.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index e206065..579d987 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -49,6 +49,9 @@ class HDPrivateKey(BaseHDPrivateKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPrivateKey.DataLength:
+            raise ValueError("HDPrivateKey data must be 78 bytes long")
+
         chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])
         index   = int_from_bytes(data[HDPrivateKey.ChildIndexStart : HDPrivateKey.ChildIndexEnd])
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 944f17e..fd6d4d0 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -29,6 +29,9 @@ class HDPublicKey(BaseHDPublicKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPublicKey.DataSize:
+            raise ValueError("HDPublicKey data must be 78 bytes long")
+
         chain   = data[HDPublicKey.ChainCodeStart : HDPublicKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd])
         index   = int_from_bytes(data[HDPublicKey.ChildIndexStart : HDPublicKey.ChildIndexEnd])
-- 
2.43.0


From d2f8abced7b8e7cbcf53f663fa41d1126b67906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 35/63] fix: refuse extended private keys without the zero byte
 before the key

---
 bitforge/hdprivkey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 579d987..2063568 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -57,6 +57,9 @@ class HDPrivateKey(BaseHDPrivateKey):
         index   = int_from_bytes(data[HDPrivateKey.ChildIndexStart : HDPrivateKey.ChildIndexEnd])
         parent  = int_from_bytes(data[HDPrivateKey.ParentFingerPrintStart : HDPrivateKey.ParentFingerPrintEnd])
 
+        if data[HDPrivateKey.ChainCodeEnd : HDPrivateKey.PrivateKeyStart] != b'\0':
+            raise ValueError("HDPrivateKey data must have a zero byte before the private key")
+
         # The version field is used to deduce the network:
         version = int_from_bytes(data[HDPrivateKey.VersionStart:HDPrivateKey.VersionEnd])
         network = networks.find(version, 'hd_private_key')
-- 
2.43.0


From 6205d58ad20bdab74e3cfed8a0bb2e56c12fb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 36/63] fix: OP_DROP dropped two stack elements

---
 bitforge/script/interpreter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 140d10b..a4ebd66 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -393,7 +393,6 @@ class Interpreter(object):
                     return False
 
                 self.stack.pop()
-                self.stack = self.stack[:-1]
 
             elif instruction.opcode == OP_DUP:
                 # ( x -- x x )
-- 
2.43.0


From 8522d05c4102d51fb2c60fdddd3a5fae03bb9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 37/63] fix: OP_ABS ignored its operand

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index a4ebd66..e9256eb 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -513,7 +513,7 @@ class Interpreter(object):
                     number = -number
 
                 elif instruction.opcode == OP_ABS:
-                    number = abs(-1)
+                    number = abs(number)
 
                 elif instruction.opcode == OP_NOT:
                     number = int(number == 0)
-- 
2.43.0


From 95b6c5e97fea0fdf899bfb7947087f8b61b2c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 38/63] fix: OP_WITHIN honours SCRIPT_VERIFY_MINIMALDATA

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e9256eb..33a77d0 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -591,7 +591,7 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                number1, number2, number3 = map(decode_script_number, self.stack[-3:])
+                number1, number2, number3 = [decode_script_number(x, f_required_minimal) for x in self.stack[-3:]]
                 f_value = number2 <= number1 < number3
 
                 self.stack = self.stack[:-3] + [Interpreter.bool_bytes[f_value]]
-- 
2.43.0


From e7b68aaaf2cd1c2b8b54063bb253691bfbb778a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 39/63] fix: check the stack size limit after every operation

---
 bitforge/script/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 33a77d0..f0e6213 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -132,9 +132,9 @@ class Interpreter(object):
                 if not self.step():
                     return False
 
-            if len(self.stack) + len(self.altstack) > 1000:
-                self.errstr = 'SCRIPT_ERR_STACK_SIZE'
-                return False
+                if len(self.stack) + len(self.altstack) > 1000:
+                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
+                    return False
 
         except Exception as e:
             self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)
-- 
2.43.0


From d6dc0222b55816e95d9b693fbd6fe71516ba7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 40/63] fix: OP_CHECKLOCKTIMEVERIFY always failed, and ignored
 its flag

---
 bitforge/script/interpreter.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index f0e6213..079f4c2 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -2,6 +2,7 @@ from __future__ import unicode_literals
 
 from bitforge.errors import BitforgeError
 from bitforge.transaction import Transaction, Input, Output
+from bitforge.transaction.input import FINAL_SEQ_NUMBER
 from bitforge.tools import Buffer
 from bitforge.script import Script
 
@@ -209,11 +210,14 @@ class Interpreter(object):
                 pass
 
             elif instruction.opcode == OP_CHECKLOCKTIMEVERIFY:
-                if self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                if not self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                    # not enabled; treat as a NOP2
                     if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:
                         self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'
                         return False
 
+                    return True
+
                 if len(self.stack) < 1:
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
@@ -755,7 +759,21 @@ class Interpreter(object):
         return True
 
     def check_lock_time(self, nlock_time):
-        pass
+        """
+        Comes from bitcoind's TransactionSignatureChecker::CheckLockTime
+        """
+        tx_lock_time = self.tx.lock_time
+        threshold = Interpreter.LOCKTIME_THRESHOLD
+
+        # Both must be block heights, or both must be timestamps:
+        if (tx_lock_time < threshold) != (nlock_time < threshold):
+            return False
+
+        if nlock_time > tx_lock_time:
+            return False
+
+        # A final input would make the Transaction ignore its lock_time:
+        return self.tx.inputs[self.nin].seq_number != FINAL_SEQ_NUMBER
 
     def check_signature_encoding(self, bytes):
         pass
-- 
2.43.0


From ab2cb51266cc6ac8004f65da6994847a669f90ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 41/63] fix: evaluate the redeem script of P2SH outputs
 (verify() raised AttributeError)

---
 bitforge/script/interpreter.py | 13 +++++++++----
 bitforge/script/script.py      |  7 +++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 079f4c2..26f7416 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -81,7 +81,7 @@ class Interpreter(object):
             return False
 
         # Additional validation for spend-to-script-hash transactions:
-        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_sig.is_script_hash_out():
+        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_pubkey.is_script_hash_out():
             # script_sig must be literals-only or validation fails
             if not script_sig.is_push_only():
                 self.errstr = 'SCRIPT_ERR_SIG_PUSHONLY'
@@ -94,9 +94,14 @@ class Interpreter(object):
                 raise Exception('internal error - stack copy empty')
 
             redeem_bytes = stack_copy[-1]
-            redeem_script = Script.from_bytes(redeem_bytes)
             stack_copy = stack_copy[:-1]
 
+            try:
+                redeem_script = Script.from_bytes(redeem_bytes)
+            except BitforgeError:
+                self.errstr = 'SCRIPT_ERR_BAD_OPCODE'
+                return False
+
             self.initialize()
             self.script = redeem_script
             self.stack = stack_copy
@@ -108,11 +113,11 @@ class Interpreter(object):
             if not self.evaluate():
                 return False
 
-            if len(stack_copy) == 0:
+            if len(self.stack) == 0:
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                 return False
 
-            if not Interpreter.cast_to_bool(stack_copy[-1]):
+            if not Interpreter.cast_to_bool(self.stack[-1]):
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                 return False
 
diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 488444a..476d018 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -153,6 +153,13 @@ class Script(BaseScript):
         """
         return all(i.opcode <= OP_16 for i in self.instructions)
 
+    def is_script_hash_out(self):
+        """
+        :returns: if this is exactly the Pay-to-Script-Hash output script of BIP16
+        """
+        data = bytearray(self.to_bytes())
+        return len(data) == 23 and (data[0], data[1], data[22]) == (OP_HASH160.number, 20, OP_EQUAL.number)
+
     def __repr__(self):
         return str(self.instructions)
 
-- 
2.43.0


From 2b96adad781f856fc77a3e923148db32bbe11684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 42/63] fix: refuse URIs of other schemes

---
 bitforge/uri.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 9617925..67484a8 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -24,6 +24,8 @@ class URI(object):
     @staticmethod
     def parse(uri):
         parsed = urlparse(uri)
+        if parsed.scheme != 'bitcoin':
+            raise ValueError('Not a bitcoin URI')
         data = dict(parse_qsl(parsed.query))
         data['address'] = parsed.path or parsed.netloc
         return data
-- 
2.43.0


From 6f60132f23399b0dc63278efd58bf6f2888c08a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 43/63] fix: URI.is_valid() raised OverflowError for an
 infinite amount

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 67484a8..41f71b9 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -18,7 +18,7 @@ class URI(object):
         try:
             URI(uri)
             return True
-        except (ValueError, BitforgeError):
+        except (ValueError, OverflowError, BitforgeError):
             return False
 
     @staticmethod
-- 
2.43.0


From 8d4d614d302f94d6e5909de49be74a66f274c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 44/63] fix: write small URI amounts in plain decimals (BIP21)

---
 bitforge/uri.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 41f71b9..d317a8b 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -1,4 +1,6 @@
 from __future__ import unicode_literals
+import re
+from decimal import Decimal
 
 try:
     from urllib.parse import urlparse, parse_qsl, urlencode
@@ -56,7 +58,8 @@ class URI(object):
     def to_uri(self):
         query = self.extras.copy()
         if self.amount:
-            query['amount'] = self.amount.btc
+            # BIP21 wants plain decimals, str() gives 1e-08 for a satoshi
+            query['amount'] = re.sub('0{1,7}$', '', '{0:.8f}'.format(Decimal(self.amount.satoshis) / 10 ** 8))
         for key in ['message', 'label', 'r']:
             value = getattr(self, key, False)
             if value: query[key] = value
-- 
2.43.0


From 744fa87c8cb35c7ff8f7e3f2a9cf579df5c6deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:35 +0000
Subject: [PATCH 45/63] fix: report text that can't be encoded as UTF-8 as
 invalid base58

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 42e422c..87726b6 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -38,7 +38,7 @@ def decode_base58h(string):
     try:
         return utils.encoding.a2b_hashed_base58(string)
 
-    except utils.encoding.EncodingError:
+    except (utils.encoding.EncodingError, UnicodeError):
         raise InvalidBase58h(string)
 
 
-- 
2.43.0


From 45a582d0e6d979532b078db9375969d1df1af3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:35 +0000
Subject: [PATCH 46/63] fix: PublicKey built from a list kept the mutable list

---
 bitforge/pubkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/pubkey.py b/bitforge/pubkey.py
index 3b8f818..1c5c265 100644
--- a/bitforge/pubkey.py
+++ b/bitforge/pubkey.py
@@ -43,7 +43,7 @@ class PublicKey(BasePublicKey):
         if not utils.ecdsa.is_public_pair_valid(generator_secp256k1, pair):
             raise PublicKey.InvalidPair(pair)
 
-        return super(PublicKey, cls).__new__(cls, pair, network, compressed)
+        return super(PublicKey, cls).__new__(cls, tuple(pair), network, compressed)
 
     @staticmethod
     def from_private_key(privkey):
-- 
2.43.0


From f224d7b83aa9c977a6db39eeaea215324632ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:44 +0000
Subject: [PATCH 47/63] fix: encode zero and long varints to bytes on Python 3

---
 bitforge/encoding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 87726b6..3e46fb4 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,6 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
+from .compat import chr
 from .errors import StringError, NumberError
 
 
-- 
2.43.0


From a71e8c017eb9107d6d27a963a7e4a0427281fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:48 +0000
Subject: [PATCH 48/63] fix: compare Instructions with other objects without
 raising

---
 bitforge/script/instruction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index cbf7764..d87d150 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -121,6 +121,9 @@ class Instruction(BaseInstruction):
             return self.opcode.name
 
     def __eq__(self, other):
+        if not isinstance(other, Instruction):
+            return False
+
         return self.opcode == other.opcode and self.data == other.data
 
     def __hash__(self):
-- 
2.43.0


From c1936dd6a187a45ab804ed39ee5d8ded2f6eb62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:05 +0000
Subject: [PATCH 49/63] fix: multiplying a point left a negative y coordinate
 when passing by infinity

---
 bitforge/utils/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ellipticcurve.py b/bitforge/utils/ellipticcurve.py
index c225aa3..2e4244d 100644
--- a/bitforge/utils/ellipticcurve.py
+++ b/bitforge/utils/ellipticcurve.py
@@ -130,7 +130,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print "Multiplying %s by %d (e3 = %d):" % ( self, other, e3 )
-- 
2.43.0


From b2b8c498e99bbb3dd9dc3de66b78bd75079eeb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:05 +0000
Subject: [PATCH 50/63] fix: doubling a point of order 2 raised AssertionError

---
 bitforge/utils/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ellipticcurve.py b/bitforge/utils/ellipticcurve.py
index 2e4244d..e929e62 100644
--- a/bitforge/utils/ellipticcurve.py
+++ b/bitforge/utils/ellipticcurve.py
@@ -158,7 +158,7 @@ class Point( object ):
   def double( self ):
     """Return a new point that is twice the old."""
 
-    if self == INFINITY:
+    if self == INFINITY or self.__y == 0: # the tangent is vertical
       return INFINITY
 
     # X9.62 B.3:
-- 
2.43.0


From 79505466274278eeded23ac74a2449185506822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:48 +0000
Subject: [PATCH 51/63] fix: report numbers that int() can't parse as malformed
 script text

---
 bitforge/script/script.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 476d018..4ab5e33 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -1,6 +1,7 @@
 from __future__ import unicode_literals
 from numbers import Number
 import collections
+import re
 
 from bitforge.encoding import *
 from bitforge.tools import Buffer
@@ -92,7 +93,7 @@ class Script(BaseScript):
             try:
                 return Opcode.from_name(token)
             except Opcode.UnknownOpcodeName:
-                if token.isdigit():
+                if is_decimal(token):
                     return Opcode.const_push_for(int(token))
                 else:
                     raise Script.UnknownOpcodeName(token)
@@ -114,7 +115,7 @@ class Script(BaseScript):
                     size_string = next(tokens)
                     hex_bytes = next(tokens)
 
-                    if not size_string.isdigit():
+                    if not is_decimal(size_string):
                         raise Script.InvalidPushSize(size_string)
 
                     if not hex_bytes.startswith('0x'):
@@ -308,6 +309,11 @@ SCRIPT_SUBCLASSES = [
 ]
 
 
+def is_decimal(token):
+    # isdigit() is also true for digits that int() can't parse, such as '\u00b2'
+    return re.match('[0-9]{1,10}$', token) is not None
+
+
 def to_instructions(schematic):
     instructions = []
 
-- 
2.43.0


From b8d6b9ffef91c49e4cdc17a3b8079371788a7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:49 +0000
Subject: [PATCH 52/63] fix: signing returned an r beyond the group order when
 the curve's field is larger

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index d2aaf13..eefaa16 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -102,7 +102,7 @@ def sign(generator, secret_exponent, val):
     n = G.order()
     k = deterministic_generate_k(n, secret_exponent, val)
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( val + ( secret_exponent * r ) % n ) ) % n
-- 
2.43.0


From 584891190fe5416f9f6d24cfe714fed2d7cfdc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:49 +0000
Subject: [PATCH 53/63] fix: recovering public keys raised if one of the
 candidates was infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index eefaa16..47ad623 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -171,6 +171,7 @@ def possible_public_pairs_for_signature(generator, value, signature):
         R = ellipticcurve.Point(curve, x, y, order)
         # 1.6 compute Q = r^-1 (sR - eG)
         Q = inv_r * ( s * R + minus_e * G )
+        if Q == ellipticcurve.INFINITY: continue
         public_pair = (Q.x(), Q.y())
         # check that Q is the public key
         if verify(generator, public_pair, value, signature):
-- 
2.43.0


From 687b0ddbe19961dc546e8ddd64159fa86f531a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:17 +0000
Subject: [PATCH 54/63] fix: amounts in URIs depended on the decimal context of
 the thread

---
 bitforge/uri.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index d317a8b..414af95 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -1,6 +1,5 @@
 from __future__ import unicode_literals
 import re
-from decimal import Decimal
 
 try:
     from urllib.parse import urlparse, parse_qsl, urlencode
@@ -59,7 +58,7 @@ class URI(object):
         query = self.extras.copy()
         if self.amount:
             # BIP21 wants plain decimals, str() gives 1e-08 for a satoshi
-            query['amount'] = re.sub('0{1,7}$', '', '{0:.8f}'.format(Decimal(self.amount.satoshis) / 10 ** 8))
+            query['amount'] = re.sub('0{1,7}$', '', '%d.%08d' % divmod(self.amount.satoshis, 10 ** 8))
         for key in ['message', 'label', 'r']:
             value = getattr(self, key, False)
             if value: query[key] = value
-- 
2.43.0


From d3dfe8ae07e9659faa9f814ab624cae5b9af9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:30 +0000
Subject: [PATCH 55/63] fix: the WIF helpers refuse wrong lengths and
 compression flags

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 4e081cd..4946dbd 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -181,6 +181,8 @@ def wif_to_tuple_of_prefix_secret_exponent_compressed(wif):
     decoded = a2b_hashed_base58(wif)
     actual_prefix, private_key = decoded[:1], decoded[1:]
     compressed = len(private_key) > 32
+    if len(private_key) < 32 or (compressed and private_key[32:] != b'\1'):
+        raise EncodingError("bad length or compression flag in WIF %s" % wif)
     return actual_prefix, from_bytes_32(private_key[:32]), compressed
 
 
-- 
2.43.0


From 2abbe07f4892b41980d6ed6a6cc1856be567bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:55 +0000
Subject: [PATCH 56/63] fix: base58 helpers report unencodable text as bad
 characters

---
 bitforge/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 4946dbd..94767a3 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -138,7 +138,7 @@ def b2a_base58(s):
 
 def a2b_base58(s):
     """Convert base58 to binary using BASE58_ALPHABET."""
-    v, prefix = to_long(BASE58_BASE, lambda c: BASE58_LOOKUP[c], s.encode("utf8"))
+    v, prefix = to_long(BASE58_BASE, lambda c: BASE58_LOOKUP[c], s.encode("utf8", "replace"))
     return from_long(v, prefix, 256, lambda x: x)
 
 
-- 
2.43.0


From b309bba3bbb17b5f51aee22bfa3b9a6639fc83be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:33 +0000
Subject: [PATCH 57/63] fix: sec_to_public_pair refuses compressed keys that
 are not on the curve

---
 bitforge/utils/encoding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 94767a3..0bc6115 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -247,9 +247,13 @@ def sec_to_public_pair(sec):
             raise EncodingError("invalid (x, y) pair")
         return public_pair
     if sec0 in (b'\2', b'\3'):
-        from .ecdsa import public_pair_for_x
+        from .ecdsa import is_public_pair_valid, public_pair_for_x
         from .secp256k1 import generator_secp256k1
-        return public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        public_pair = public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        # x may belong to no point of the curve
+        if not is_public_pair_valid(generator_secp256k1, public_pair):
+            raise EncodingError("invalid x coordinate")
+        return public_pair
     raise EncodingError("bad sec encoding for public key")
 
 
-- 
2.43.0


From e415ca5455065533bfd752bda7b95f4d12d9acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:09 +0000
Subject: [PATCH 58/63] fix: public-key recovery missed points whose x exceeds
 the group order

---
 bitforge/utils/ecdsa.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 47ad623..0ce7f26 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -162,19 +162,20 @@ def possible_public_pairs_for_signature(generator, value, signature):
     # 1.1
     inv_r = numbertheory.inverse_mod(r,order)
     minus_e = -value % order
-    x = r
-    # 1.3
-    alpha = ( pow(x,3,p)  + curve.a() * x + curve.b() ) % p
-    beta = numbertheory.modular_sqrt(alpha, p)
-    for y in [beta, p - beta]:
-        # 1.4 the constructor checks that nR is at infinity
-        R = ellipticcurve.Point(curve, x, y, order)
-        # 1.6 compute Q = r^-1 (sR - eG)
-        Q = inv_r * ( s * R + minus_e * G )
-        if Q == ellipticcurve.INFINITY: continue
-        public_pair = (Q.x(), Q.y())
-        # check that Q is the public key
-        if verify(generator, public_pair, value, signature):
-        # check that we get the original signing address
-            possible_points.add(public_pair)
+    for x in range(r, p, order): # r is x modulo the order
+        # 1.3
+        alpha = ( pow(x,3,p)  + curve.a() * x + curve.b() ) % p
+        beta = numbertheory.modular_sqrt(alpha, p)
+        for y in [beta, p - beta]:
+            if not is_public_pair_valid(generator, (x, y)): continue
+            # 1.4 the constructor checks that nR is at infinity
+            R = ellipticcurve.Point(curve, x, y, order)
+            # 1.6 compute Q = r^-1 (sR - eG)
+            Q = inv_r * ( s * R + minus_e * G )
+            if Q == ellipticcurve.INFINITY: continue
+            public_pair = (Q.x(), Q.y())
+            # check that Q is the public key
+            if verify(generator, public_pair, value, signature):
+            # check that we get the original signing address
+                possible_points.add(public_pair)
     return possible_points
-- 
2.43.0


From 49d1bf05baa6a880ed12735a5e634cf2eb9d4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:15 +0000
Subject: [PATCH 59/63] fix: signatures have a low S also when S is just above
 half the order

---
 bitforge/privkey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 8319c05..57f4e6f 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -17,6 +17,11 @@ def random_secret():
     return rng.randint(1, KEY_MAX - 1)
 
 
+def sigencode_low_s(r, s, order):
+    # ecdsa's sigencode_der_canonize() compares s with a float on Python 3
+    return ecdsa.util.sigencode_der(r, min(s, order - s), order)
+
+
 def find_network(value, attr = 'name'):
     try:
         return networks.find(value, attr)
@@ -129,7 +134,7 @@ class PrivateKey(BasePrivateKey):
 
     def sign(self, message):
         signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
-        return signing_key.sign_digest(message, sigencode = ecdsa.util.sigencode_der_canonize)
+        return signing_key.sign_digest(message, sigencode = sigencode_low_s)
 
     def verify(self, signature, message):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
-- 
2.43.0


From 18851c52b7833c1340214e36bfa4598c528e1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:40 +0000
Subject: [PATCH 60/63] fix: verify() refuses signatures whose DER lengths go
 beyond their end

---
 bitforge/privkey.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 57f4e6f..f497316 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -22,6 +22,16 @@ def sigencode_low_s(r, s, order):
     return ecdsa.util.sigencode_der(r, min(s, order - s), order)
 
 
+def sigdecode_strict(signature, order):
+    # ecdsa's sigdecode_der() ignores lengths that go beyond the signature
+    r, s = ecdsa.util.sigdecode_der(signature, order)
+
+    if ecdsa.util.sigencode_der(r, s, order) != signature:
+        raise ecdsa.der.UnexpectedDER("not the DER encoding of a signature")
+
+    return r, s
+
+
 def find_network(value, attr = 'name'):
     try:
         return networks.find(value, attr)
@@ -140,7 +150,7 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        return verifying_key.verify_digest(signature, message, sigdecode = sigdecode_strict)
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From 60844f59deb18d71cf8b27fc0e533611ddf13f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:49 +0000
Subject: [PATCH 61/63] fix: derive() refuses the children that BIP32 calls
 invalid

---
 bitforge/hdprivkey.py | 3 +++
 bitforge/hdpubkey.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 2063568..45dc907 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -100,6 +100,9 @@ class HDPrivateKey(BaseHDPrivateKey):
             hashlib.sha512
         ).digest()
 
+        if int_from_bytes(signed64[:32]) >= utils.generator_secp256k1.order():
+            raise ValueError("HDPrivateKey has no valid child at index %d" % index)
+
         seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index fd6d4d0..02b49e9 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -82,6 +82,9 @@ class HDPublicKey(BaseHDPublicKey):
             hashlib.sha512
         ).digest()
 
+        if int_from_bytes(signed64[:32]) >= utils.generator_secp256k1.order():
+            raise ValueError("HDPublicKey has no valid child at index %d" % index)
+
         x, y = self.pubkey.pair
         curve = utils.generator_secp256k1
         point = int_from_bytes(signed64[:32]) * curve + utils.Point(curve.curve(), x, y, curve.order())
-- 
2.43.0


From 327c2333bc8e831d6645796861915cbcc36b0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:44 +0000
Subject: [PATCH 62/63] fix: derive() refuses indices outside the BIP32 range

---
 bitforge/hdprivkey.py | 3 ++-
 bitforge/hdpubkey.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 45dc907..ee6db50 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -84,7 +84,8 @@ class HDPrivateKey(BaseHDPrivateKey):
 
 
     def derive(self, index, hardened = False):
-        # TODO Is index Valid?
+        if not (0 <= index <= 0xFFFFFFFF):
+            raise ValueError("HDPrivateKey index must be between 0 and 4294967295 (2^32 - 1)")
 
         if index < HARDENED_START and hardened:
             index += HARDENED_START
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 02b49e9..e6f424e 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -66,7 +66,8 @@ class HDPublicKey(BaseHDPublicKey):
 
 
     def derive(self, index, hardened = False):
-        # TODO Is index Valid?
+        if not (0 <= index <= 0xFFFFFFFF):
+            raise ValueError("HDPublicKey index must be between 0 and 4294967295 (2^32 - 1)")
 
         if index < HARDENED_START and hardened:
             index += HARDENED_START
-- 
2.43.0


From d0a9136ce06b4030cfff4bd2dbe07794ddee0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:45 +0000
Subject: [PATCH 63/63] fix: MultisigInput signs with keys that its script
 lists more than once

---
 bitforge/transaction/input.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 2fbc97f..985a4d9 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -179,13 +179,17 @@ class MultisigInput(ScriptInput):
 
     def sign(self, privkeys, payload, sigtype = SIGHASH_ALL):
         # OP_CHECKMULTISIG wants signatures in the same order as the PublicKeys
-        pairs = [ pubkey.pair for pubkey in self.script.get_public_keys() ]
+        remaining = [ (privkey.to_public_key().pair, privkey) for privkey in privkeys ]
+        privkeys  = []
 
-        def position(privkey):
-            pair = privkey.to_public_key().pair
-            return pairs.index(pair) if pair in pairs else len(pairs)
+        for pubkey in self.script.get_public_keys():
+            for item in remaining:
+                if item[0] == pubkey.pair:
+                    privkeys.append(item[1])
+                    remaining.remove(item)
+                    break # the Script may have this PublicKey again
 
-        privkeys = sorted(privkeys, key = position)
+        privkeys += [ privkey for pair, privkey in remaining ]
         return super(MultisigInput, self).sign(privkeys, payload, sigtype)
 
     def can_sign(self, privkeys):
-- 
2.43.0

