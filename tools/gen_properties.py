"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Base58Check text is an exact, checksummed encoding of bytes",
     "Every byte string, including the empty one and ones with any number of leading zero bytes, encodes to Base58Check text that decodes back to exactly those bytes, and the text is the one the Bitcoin Base58Check definition prescribes. Decoding accepts a string only if it is the encoding of some bytes with a correct 4-byte double-SHA256 checksum; every other string is rejected as invalid Base58Check.",
     ["inputs"], "all byte strings of any length; all text strings, including corrupted encodings",
     "Tests decode a few dozen fixed addresses and keys; payload lengths, runs of leading zeros and corruptions are unbounded.",
     ["bitforge/encoding.py", "bitforge/utils/encoding.py"],
     [("encode_base58h/decode_base58h", "bitforge/encoding.py"), ("to_long/from_long prefix counting and checksum comparison", "bitforge/utils/encoding.py")],
     ["bitforge.encoding.encode_base58h", "bitforge.encoding.decode_base58h"])

prop("C02", "Private keys survive every export/import and bad encodings are refused",
     "For every secret in 1..n-1, either network and either compression choice, exporting a private key to WIF, hex or bytes gives the standard fixed-width encoding, and importing it gives back the same secret (and, for WIF, the same network and compression). Importing accepts nothing else: a wrong length, checksum, prefix, compression byte, alphabet or a secret outside 1..n-1 raises one of the private-key error types.",
     ["inputs", "configurations"], "all secrets (including ones with leading zero bytes and the range ends), networks, compression flags; all malformed encodings",
     "Tests use a handful of full-width secrets and one random round trip per run; secrets with leading zeros or at the ends of the range are never drawn.",
     ["bitforge/privkey.py", "bitforge/encoding.py", "bitforge/networks.py"],
     [("range check of the secret", "bitforge/privkey.py PrivateKey.__new__"), ("fixed-width big-endian encoding", "bitforge/encoding.py encode_int"), ("WIF length/compression/prefix checks", "bitforge/privkey.py PrivateKey.from_wif")],
     ["PrivateKey.to_wif/from_wif", "PrivateKey.to_hex/from_hex", "PrivateKey.to_bytes/from_bytes"])

prop("C03", "Public keys are exactly secret*G on secp256k1",
     "For every valid secret, the public key derived from a private key is the point secret*G of secp256k1, carrying the private key's network and compression. Point addition, doubling and scalar multiplication obey the group law for all points, including the point at infinity, inverse points and scalars at or beyond the group order.",
     ["inputs"], "all secrets in 1..n-1, all pairs of curve points, all non-negative scalars",
     "Tests compare two or three fixed keys; carry, sign and exceptional cases of the ladder depend on the scalar's bit pattern.",
     ["bitforge/pubkey.py", "bitforge/utils/ellipticcurve.py", "bitforge/utils/ecdsa.py", "bitforge/utils/secp256k1.py"],
     [("NAF-style scalar ladder and affine addition", "bitforge/utils/ellipticcurve.py Point"), ("curve constants", "bitforge/utils/secp256k1.py")],
     ["PrivateKey.to_public_key", "PublicKey.from_private_key", "bitforge.utils Point arithmetic"])

prop("C04", "Public-key bytes decode iff they are a canonical curve-point encoding",
     "Every curve point encodes, compressed or uncompressed, to the standard 33- or 65-byte form and decodes back to the same coordinates and compression. Decoding accepts a byte string only if it is exactly such an encoding of a point on the curve with coordinates below the field prime, and anything else (wrong prefix, wrong length, point off the curve, coordinate out of range) raises a public-key error; no public key object can hold coordinates that are not a curve point.",
     ["inputs"], "all byte/hex strings, all coordinate pairs",
     "Tests decode two encodings of one key and two obviously bad strings.",
     ["bitforge/pubkey.py", "bitforge/utils/encoding.py", "bitforge/utils/ecdsa.py", "bitforge/utils/numbertheory.py"],
     [("prefix/length checks and y recovery", "bitforge/utils/encoding.py sec_to_public_pair, bitforge/utils/ecdsa.py public_pair_for_x"), ("curve membership test", "bitforge/utils/ecdsa.py is_public_pair_valid")],
     ["PublicKey.from_bytes/to_bytes", "PublicKey.from_hex/to_hex", "PublicKey(pair)"])

prop("C05", "Addresses commit to the key or script, network and type",
     "The address of a public key is the version byte of its network followed by RIPEMD160(SHA256(encoded key)), and the address of a script is the script version byte followed by the hash of the script's bytes. Every address round-trips through text, hex and bytes keeping hash, network and type, and any text, hex or bytes that is not a 21-byte payload with a known version byte (and valid checksum, for text) raises an address error.",
     ["inputs", "configurations"], "all keys, scripts, hashes, networks and types; all malformed encodings",
     "Tests use fixed vectors; script addresses made from scripts and most rejected inputs are never exercised.",
     ["bitforge/address.py", "bitforge/networks.py", "bitforge/encoding.py"],
     [("version byte lookup in both directions", "bitforge/address.py classify_bytes/to_bytes, bitforge/networks.py find"), ("hashing", "bitforge/address.py from_public_key/from_script")],
     ["Address.from_string/from_hex/from_bytes/from_public_key/from_script", "Address.to_string/to_hex/to_bytes", "PrivateKey.to_address", "PublicKey.to_address"])

prop("C06", "Signatures verify, are strict DER and low-S; verification is sound",
     "For every private key and 32-byte digest, signing yields a strict-DER signature with S at most half the group order that is a valid ECDSA signature of that digest under the matching public key. Verification with a private key returns true for its own signatures over the same digest and never returns true when the signature, the digest or the key differs in a way that makes the signature invalid.",
     ["inputs"], "all secrets, digests, and altered or forged signatures",
     "No test calls sign or verify.",
     ["bitforge/privkey.py"],
     [("delegation to the ecdsa package with canonical DER encoding", "bitforge/privkey.py PrivateKey.sign/verify")],
     ["PrivateKey.sign", "PrivateKey.verify"])

prop("C07", "Generated secrets and signing nonces are unpredictable and never reused",
     "Every generated private key lies in 1..n-1 and every secret, seed and signing nonce is drawn from the operating system's entropy (or derived deterministically from key and message), never from a seedable or constant source. Over any history, no two signatures of different messages or by different keys share a nonce, and nonces are not short or biased.",
     ["histories", "fault_sequences", "inputs"], "all histories of key generation and signing, including a reseeded global PRNG and extreme entropy bytes",
     "The single test checks that two generated keys differ; nonce reuse is invisible in any one signature.",
     ["bitforge/privkey.py", "bitforge/hdprivkey.py"],
     [("SystemRandom generator and range", "bitforge/privkey.py random_secret"), ("os.urandom seed", "bitforge/hdprivkey.py HDPrivateKey.from_seed"), ("random nonce inside the ecdsa package", "bitforge/privkey.py PrivateKey.sign")],
     ["PrivateKey()", "PrivateKey.sign", "HDPrivateKey.from_seed()"])

prop("C08", "Integers, varints and script numbers encode exactly and reversibly",
     "Fixed-width and minimal integers (both byte orders), Bitcoin variable-length integers and script numbers encode to the protocol-defined bytes and decode back to the same value for the whole range of each format; a value that does not fit its field raises instead of being silently changed. Reading from a byte buffer returns exactly the requested bytes in order and leaves exactly the rest, and asking for more bytes than remain raises an insufficient-data error without consuming anything.",
     ["inputs", "histories"], "all integers, widths and byte orders; all byte strings; all sequences of buffer reads and writes",
     "Codecs are tested only indirectly, on small values.",
     ["bitforge/encoding.py", "bitforge/tools.py", "bitforge/utils/intbytes.py"],
     [("encode_int/decode_int/encode_varint/encode_script_number/decode_script_number", "bitforge/encoding.py"), ("Buffer.read/read_varint/write", "bitforge/tools.py")],
     ["bitforge.encoding integer functions", "bitforge.tools.Buffer", "bitforge.utils.intbytes"])

prop("C09", "Script bytes and Script objects correspond one-to-one",
     "Parsing any well-formed script byte string and serializing the result reproduces the identical bytes, and the parsed instructions are the opcodes and push data the Bitcoin script format defines. Serializing any sequence of instructions and parsing it gives an equal script; a byte string whose last push is truncated is refused, and compiling data always uses the shortest push opcode for its length.",
     ["inputs"], "all byte strings; all instruction sequences; push lengths up to and beyond each length-prefix boundary",
     "Tests parse one short push per push opcode and never serialize variable-length pushes.",
     ["bitforge/script/script.py", "bitforge/script/instruction.py", "bitforge/script/opcode.py", "bitforge/tools.py"],
     [("Script.from_buffer / Instruction.to_bytes", "bitforge/script/script.py, bitforge/script/instruction.py"), ("push opcode selection", "bitforge/script/opcode.py push_for")],
     ["Script.from_bytes/to_bytes/to_hex", "Script.compile", "Instruction", "Instruction.push_for"])

prop("C10", "Script text form round-trips and malformed text is refused",
     "For every script made of named opcodes and pushes, the text form parses back to an equal script with identical bytes. Text with an unknown opcode name, a missing or non-hex push argument, or a length that disagrees with its data raises a library error and never yields a script.",
     ["inputs"], "all scripts over the named opcodes with any push data; all token strings",
     "Tests cover four fixed strings and six malformed ones.",
     ["bitforge/script/script.py", "bitforge/script/instruction.py", "bitforge/script/opcode.py"],
     [("Script.from_string tokenizer", "bitforge/script/script.py"), ("Instruction.to_string", "bitforge/script/instruction.py"), ("name table", "bitforge/script/opcode.py")],
     ["Script.from_string", "Script.to_string", "Opcode.from_name", "Opcode.name"])

prop("C11", "Standard scripts are built, recognised and taken apart consistently",
     "Each standard script builder produces exactly the standard Bitcoin script for its arguments, the built script is classified as that kind (also after a byte round trip), and its accessors return the arguments it was built from. Classification is total: any script, standard or not, is classified by its opcode structure alone without raising.",
     ["inputs"], "all keys, hashes, data, signatures and m-of-n combinations; all other scripts",
     "Tests classify one instance of each kind.",
     ["bitforge/script/script.py"],
     [("create/is_valid/get_* of the Script subclasses and Script.classify", "bitforge/script/script.py")],
     ["PayToPubkeyIn", "PayToPubkeyOut", "PayToScriptIn", "PayToScriptOut", "OpReturnOut", "RedeemMultisig", "Script.create/classify"])

prop("C12", "Transactions serialize to the Bitcoin wire format and back, with right ids",
     "Every transaction, input and output whose fields are in range serializes to exactly the Bitcoin protocol bytes and parses back to an equal object that serializes identically, for any number of inputs and outputs and any script length. Parsing truncated bytes raises, a transaction cannot be created without inputs or outputs or with an out-of-range lock time, and the transaction id is the byte-reversed hex double SHA256 of those bytes.",
     ["inputs"], "all field values, counts and script lengths, including every varint boundary; all truncations",
     "No test serializes a transaction.",
     ["bitforge/transaction/transaction.py", "bitforge/transaction/input.py", "bitforge/transaction/output.py", "bitforge/encoding.py", "bitforge/tools.py"],
     [("to_bytes/from_buffer of Transaction, Input and Output", "bitforge/transaction/"), ("get_id", "bitforge/transaction/transaction.py")],
     ["Transaction.to_bytes/to_hex/from_bytes/from_hex/get_id", "Input.to_bytes/from_bytes", "Output.to_bytes/from_bytes"])

prop("C13", "Signing an input yields a spend the Bitcoin rules accept, touching nothing else",
     "Signing an input of any transaction with the right private keys (one for a key-hash input, the required number for a multisig input, in any order) produces a script that satisfies the spent output under Bitcoin's script and SIGHASH_ALL rules, so each signature commits to the whole transaction (also with SIGHASH_ANYONECANPAY added, in a transaction of one input). Every other input and all outputs, lock time, version, outpoint and sequence number are unchanged, the original transaction is unmodified, and inputs may be signed in any order.",
     ["inputs", "histories"], "all transactions, key sets, m-of-n choices, input positions and signing orders",
     "No test signs a transaction.",
     ["bitforge/transaction/transaction.py", "bitforge/transaction/input.py", "bitforge/script/script.py", "bitforge/privkey.py"],
     [("simplified transaction and payload construction", "bitforge/transaction/transaction.py Transaction.sign"), ("AddressInput.sign/ScriptInput.sign/MultisigInput.sign", "bitforge/transaction/input.py")],
     ["Transaction.sign", "AddressInput/ScriptInput/MultisigInput"])

prop("C14", "Script evaluation follows Bitcoin's rules for every non-signature opcode",
     "For every pair of scripts and every combination of supported verification flags, evaluation gives the verdict and leaves the stack that Bitcoin's script rules prescribe, for all constants, flow control, stack, arithmetic, comparison, hashing and lock-time operations, disabled and reserved opcodes, push-only, minimal-data, null-dummy and upgradable-NOP rules.",
     ["programs", "inputs", "configurations"], "all script pairs over the non-signature opcodes, all flag combinations, all transaction lock times and sequence numbers",
     "Tests evaluate seven trivial programs over a few opcodes, with no flags.",
     ["bitforge/script/interpreter.py", "bitforge/encoding.py", "bitforge/script/instruction.py"],
     [("Interpreter.verify/evaluate/step", "bitforge/script/interpreter.py"), ("script number codec", "bitforge/encoding.py"), ("minimal push rule", "bitforge/script/instruction.py is_minimal_push")],
     ["Interpreter.verify", "Interpreter.stack after verify"],
     [("stack/altstack/vf_exec/nop_count", "machine state of the evaluator", "bitforge/script/interpreter.py")])

prop("C15", "Script evaluation is total, bounded and never accepts bad signatures",
     "Verification of any pair of parsed scripts under any flags terminates with true or false and never raises; a false verdict carries a non-empty error description. Scripts over 10000 bytes, pushes over 520 bytes, more than 201 counted operations or more than 1000 stack elements at any moment are refused exactly at those limits, and a signature check never succeeds for a signature that is not valid for the transaction.",
     ["programs", "inputs"], "all script pairs including random bytes and adversarial sizes around each limit; all invalid signatures",
     "No test reaches any limit, error path or signature opcode.",
     ["bitforge/script/interpreter.py"],
     [("limits in evaluate/step, catch-all in evaluate", "bitforge/script/interpreter.py"), ("CHECKSIG/CHECKMULTISIG branches", "bitforge/script/interpreter.py")],
     ["Interpreter.verify", "Interpreter.errstr"])

prop("C16", "Pay-to-script-hash spends require the redeem script to succeed",
     "With the P2SH flag set, spending an output of the form HASH160 <20-byte hash> EQUAL is accepted only if the spending script is push-only, its last push hashes to that hash, and the script in that push evaluates to true on the remaining stack. Without the flag, or for any other output form, only the two plain scripts decide.",
     ["programs", "configurations"], "all redeem scripts, all spending scripts, flag on and off",
     "No test uses the flag.",
     ["bitforge/script/interpreter.py", "bitforge/script/script.py"],
     [("P2SH branch of Interpreter.verify", "bitforge/script/interpreter.py")],
     ["Interpreter.verify with SCRIPT_VERIFY_P2SH"])

prop("C17", "HD derivation follows BIP32 and public and private derivation agree",
     "From any seed or extended key, every chain of hardened and normal child derivations gives the key, chain code, depth, index and parent fingerprint that BIP32 prescribes, and the rare children that BIP32 calls invalid, like indices outside 0..2^32-1, are refused. For non-hardened children, deriving from the public extended key gives exactly the public part of the child derived from the private one, and hardened derivation from a public extended key is refused.",
     ["inputs", "histories"], "all seeds, all derivation paths, all index values 0..2^32-1",
     "No test touches HD keys.",
     ["bitforge/hdprivkey.py", "bitforge/hdpubkey.py"],
     [("derive", "bitforge/hdprivkey.py, bitforge/hdpubkey.py"), ("from_seed", "bitforge/hdprivkey.py")],
     ["HDPrivateKey.from_seed/derive/to_hd_public_key", "HDPublicKey.derive/from_hd_private_key"])

prop("C18", "Extended keys round-trip through their BIP32 text form",
     "Every extended private or public key, on either network, at any depth, index and parent, exports to the standard xprv/xpub/tprv/tpub text and imports back to an equal key that derives the same children. Text with a bad checksum, unknown version, wrong length or invalid key material is refused.",
     ["inputs", "configurations"], "all extended keys on both networks; all corrupted texts",
     "No test touches HD keys.",
     ["bitforge/hdprivkey.py", "bitforge/hdpubkey.py", "bitforge/networks.py", "bitforge/utils/encoding.py"],
     [("to_string/from_string field layout", "bitforge/hdprivkey.py, bitforge/hdpubkey.py")],
     ["HDPrivateKey.to_string/from_string", "HDPublicKey.to_string/from_string"])

prop("C19", "Keys, addresses, scripts and transactions are immutable, hashable values",
     "The basic properties of every key, address, script, instruction, input, output and transaction cannot be changed after creation, by attribute or item assignment, by later changes to the lists it was built from, or by any method call. Objects built in different ways from the same data (constructor, text, bytes, hex) compare equal and have equal hashes, so they work as set members and dictionary keys; objects with different data compare unequal.",
     ["inputs", "histories"], "all objects and all ways of building them; all method-call sequences",
     "No test hashes an object or attempts a mutation.",
     ["bitforge/privkey.py", "bitforge/pubkey.py", "bitforge/address.py", "bitforge/script/script.py", "bitforge/script/instruction.py", "bitforge/transaction/", "bitforge/networks.py", "bitforge/tools.py"],
     [("namedtuple base classes holding immutable fields", "all model classes"), ("Instruction.__eq__/__hash__, Opcode.__eq__/__hash__", "bitforge/script/")],
     ["object fields", "==", "hash()"])

prop("C20", "Results depend only on arguments, not on history, threads or interruptions",
     "Every operation returns the same result for equal arguments no matter which operations ran before in the process, whether other threads are using the library or sharing the same keys, addresses, scripts, transactions and other values at the same time, or whether an earlier operation was aborted by an exception. In particular an interpreter instance can be reused for any sequence of verifications, one at a time, including after aborted ones, with the verdicts of fresh instances.",
     ["histories", "schedules", "fault_sequences"], "all operation histories, thread interleavings and points of interruption",
     "Tests run each operation once in a fresh, single-threaded process.",
     ["bitforge/script/interpreter.py", "bitforge/networks.py", "bitforge/privkey.py", "bitforge/pubkey.py", "bitforge/address.py", "bitforge/transaction/"],
     [("per-verify re-initialisation", "bitforge/script/interpreter.py initialize"), ("absence of shared mutable state", "whole package")],
     ["all public operations"],
     [("module-level constants and tables", "networks, opcode tables, interpreter constants, curve generator", "module globals")])

prop("C21", "Money amounts convert between units without losing a satoshi",
     "Every whole number of satoshis from 0 to 21 million bitcoin converts to bits, millibitcoin and bitcoin and back to exactly the same number of satoshis, and amounts written in decimal with at most the unit's precision give the exact satoshi count. Rates convert amounts proportionally, and an amount with no unit is refused.",
     ["inputs"], "all satoshi amounts 0..2.1e15 and their decimal representations",
     "Tests check four amounts, none of which has a rounding problem.",
     ["bitforge/unit.py"],
     [("rounding to whole satoshis", "bitforge/unit.py Unit._set_values")],
     ["Unit"])

prop("C22", "Payment URIs round-trip and validation never fails open or crashes",
     "For every address, whole-satoshi amount and non-empty text parameters, the built bitcoin: URI carries the amount in plain decimal bitcoin and parses back to the same address, amount, message, label, request URL and extra parameters. Validity checking of any string returns true or false without raising, and returns true only for a bitcoin: URI with a valid address and a finite numeric amount, if it has one.",
     ["inputs"], "all addresses, amounts, Unicode parameters; all strings",
     "Tests use a handful of URIs with friendly amounts.",
     ["bitforge/uri.py", "bitforge/unit.py", "bitforge/address.py"],
     [("URI.parse/to_uri/is_valid", "bitforge/uri.py")],
     ["URI", "URI.parse", "URI.is_valid", "URI.to_uri"])

prop("C23", "Malformed input raises the documented error with a readable message",
     "Every constructor and importer given malformed text, hex, bytes or numbers raises an error of its own documented error family (for example an address error that is also an invalid-hex error), never an unrelated exception, and never returns an object. Every library error renders to a non-empty message containing the offending value or lengths.",
     ["inputs"], "all malformed inputs to all constructors and importers",
     "Tests check the class of about thirty errors and never render a message.",
     ["bitforge/errors.py", "bitforge/encoding.py", "bitforge/address.py", "bitforge/privkey.py", "bitforge/pubkey.py", "bitforge/script/", "bitforge/transaction/", "bitforge/networks.py"],
     [("BitforgeError hierarchy and message formatting", "bitforge/errors.py"), ("re-raising of codec errors", "importers")],
     ["exception types and str()"])

prop("C24", "Low-level ECDSA: deterministic signing, sound verification, key recovery",
     "The built-in signing routine produces, for every secret and 256-bit value, the signature with the RFC 6979 nonce, and it verifies under the secret's public point. Verification accepts exactly the mathematically valid (r, s) pairs, returning false for all others in any range, and public-key recovery returns a set of points that contains the signer's and only points under which the signature verifies.",
     ["inputs"], "all secrets, values, r and s",
     "No test calls these functions.",
     ["bitforge/utils/ecdsa.py"],
     [("deterministic_generate_k/sign/verify/possible_public_pairs_for_signature", "bitforge/utils/ecdsa.py")],
     ["bitforge.utils sign/verify/recovery functions"])

prop("C25", "Modular inverse and square root are correct for every modulus",
     "The modular inverse of every number coprime to the modulus, multiplied by the number, is 1 modulo it and lies in range. For every odd prime and every residue, the modular square root squares back to the residue when it has a root and is 0 otherwise, and the Legendre symbol tells these cases apart.",
     ["inputs"], "all integers and moduli; all odd primes of both residue classes mod 4",
     "Reached only for the one secp256k1 prime through public-key decoding.",
     ["bitforge/utils/numbertheory.py"],
     [("inverse_mod/modular_sqrt/legendre_symbol", "bitforge/utils/numbertheory.py")],
     ["bitforge.utils.numbertheory"])

prop("C26", "The signature validator accepts exactly BIP66 strict-DER signatures",
     "For every byte string, the signature-format validator returns true if and only if it is a strict-DER ECDSA signature followed by one hash-type byte as BIP66 defines, and it never raises.",
     ["inputs"], "all byte strings of any length, including one-byte alterations of valid signatures",
     "No test calls it.",
     ["bitforge/signature.py"],
     [("validate_signature", "bitforge/signature.py")],
     ["bitforge.signature.validate_signature"])

prop("C27", "Input and output builders pay and claim exactly what was asked",
     "Each output builder creates an output with the given amount whose script pays exactly the given address (key-hash or script-hash, by its type), redeem script, multisig set (as pay-to-script-hash) or carries the given data of at most 80 bytes. Each input builder keeps outpoint and sequence number and holds the script its signature must commit to, reports that it can be signed exactly when the given keys are the required ones on any network, and outputs parsed from bytes, and inputs and outputs created from a script, are classified by that script.",
     ["inputs", "configurations"], "all amounts, addresses, scripts, key sets, data lengths, networks",
     "Tests build one of each on the main network and check only the class.",
     ["bitforge/transaction/input.py", "bitforge/transaction/output.py"],
     [("create/can_sign of Input and Output classes", "bitforge/transaction/")],
     ["AddressOutput/ScriptOutput/MultisigOutput/DataOutput/Output.create", "AddressInput/ScriptInput/MultisigInput/Input.create", "can_sign"])

prop("C28", "The opcode table matches Bitcoin's and opcode queries are consistent",
     "Every named opcode has Bitcoin's number and every number 0..255 makes an opcode whose name, ordering, equality, hash, byte, push kind, push capacity and small-number value are those Bitcoin defines; names and small numbers convert back to the same opcode. Requests outside their domain (unknown names, numbers outside 0..255, impossible push lengths) raise the opcode error types.",
     ["inputs"], "all opcode numbers, names, push lengths and small numbers",
     "Tests sample about twenty opcodes.",
     ["bitforge/script/opcode.py"],
     [("opcode constants and Opcode methods", "bitforge/script/opcode.py")],
     ["bitforge.script.opcode"])

prop("C29", "Network parameters are Bitcoin's and lookups are exact",
     "The main and test networks carry Bitcoin's address, script, WIF and extended-key version numbers, message magic and port. Looking a network up by any attribute returns the one network object whose attribute equals the value and otherwise raises the unknown-network error, or returns None when asked not to raise; a network object is returned as it is. Keys, addresses and extended keys made for a network carry it, their texts have its prefixes, and importing them gives the same network.",
     ["inputs", "configurations"], "all attributes and values; all keys and addresses of both networks",
     "Tests look up a few attributes and almost only use the main network.",
     ["bitforge/networks.py", "bitforge/privkey.py", "bitforge/address.py", "bitforge/hdprivkey.py", "bitforge/hdpubkey.py"],
     [("network tables and find", "bitforge/networks.py")],
     ["bitforge.networks.find", "bitforge.networks.livenet", "bitforge.networks.testnet"])

prop("C30", "Low-level encoding helpers agree with the formats and refuse all else",
     "The helper functions for Base58, Base58Check, WIF, SEC public keys, hashes, addresses and integers of any base produce, for every input, exactly the standard encoding and decode it back to the same value, with the documented defaults. Decoders raise the encoding error, and validity predicates return false without raising, for every text with a bad character, checksum, length, compression flag or prefix that is not allowed; predicates return true for all others.",
     ["inputs"], "all byte strings, secrets 1..n-1, curve points, hashes, prefixes and text strings",
     "No test calls the helpers directly.",
     ["bitforge/utils/encoding.py"],
     [("b2a/a2b_*, wif_*, public_pair_to_*, *_bitcoin_address*, to_long/from_long", "bitforge/utils/encoding.py")],
     ["bitforge.utils.encoding"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
