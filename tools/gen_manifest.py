"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'online API monitor against an independent Base58Check model, hostile byte and text workloads',
 'C02': 'online API monitor against an independent WIF/hex model, hostile import workloads',
 'C03': 'online API monitor against an independent secp256k1 and a brute-force small-curve group model',
 'C04': 'online API monitor against an independent SEC encoding model',
 'C05': 'online API monitor against an independent address model',
 'C06': 'online signature monitor: independent strict-DER parser and ECDSA verifier judge every signature and verdict',
 'C07': 'entropy-source monitor (hooked sources, altered entropy) and offline checker of nonces over the recorded history of signatures',
 'C08': 'online codec monitor against independent integer/varint/script-number models; buffer trace checker',
 'C09': 'online monitor against an independent script parser and serializer',
 'C10': 'online monitor against an independent definition of the script notation',
 'C11': 'online monitor against independent script templates',
 'C12': 'online monitor against an independent transaction codec',
 'C13': 'online monitor: an independent Bitcoin script interpreter with SIGHASH judges every signed input; before/after state comparison',
 'C14': 'differential runtime monitor: a reference script machine shadows every evaluation (verdict and stack)',
 'C15': 'runtime totality and bound monitor with line-counting watchdog, at-limit workloads, signature soundness oracle',
 'C16': 'differential runtime monitor of pay-to-script-hash evaluation',
 'C17': 'online monitor against an independent BIP32 model, public/private agreement',
 'C18': 'online monitor against an independent BIP32 text codec',
 'C19': 'state monitor: snapshots of objects before and after hostile mutation attempts and method calls; equality/hash trace checker',
 'C20': 'history, thread (injected delays, forced switches) and abort (exceptions injected at lines) stress with results monitored against pristine-process executions',
 'C21': 'online monitor with exact rational arithmetic as oracle',
 'C22': 'online monitor with an independent URI builder/parser as oracle, crash monitor on hostile strings',
 'C23': 'exception monitor: class, families and message of every refusal against an independent classification of the defect',
 'C24': 'online monitor against an independent ECDSA/RFC 6979 model and exhaustive small curves',
 'C25': 'online monitor with the defining equations as oracle, exhaustive on small moduli',
 'C26': 'online monitor against an independent BIP66 parser',
 'C27': 'online monitor of built inputs and outputs against independent script templates',
 'C28': "online monitor of every opcode query against an independent copy of Bitcoin's opcode table",
 'C29': 'online monitor of network lookups and of the networks of keys and texts against an independent parameter table',
 'C30': 'online API monitor of the encoding helpers against independent codec models, hostile texts',
}
NOTE = ('Runs the real code from /repo on seeded generated workloads; every observed call is decided by the oracle. No violation among the observed executions '
        '(counts in the evidence file); not a proof over unexplored inputs. Trusts the reference models in bfmon/ref (self-tested against published vectors by setup_cmd), '
        "CPython 3.12 and hashlib.")
EXTRA = {
 'C07': ' Unpredictability is judged by where entropy is read from and by statistics of the recovered nonces, not by cryptanalysis.',
 'C14': ' One known finding (F-CASTBOOL) is reported and not an alarm; opcodes that judge signatures are left to C15.',
 'C15': ' Signature soundness is one-directional: the interpreter may refuse valid signatures, it must never accept invalid ones.',
 'C16': ' One known finding (F-CASTBOOL) is reported and not an alarm.',
 'C20': ' Interleavings are those CPython produced under forced switching and injected delays; the evidence counts the distinct switch points seen.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
json.dump({'version': 1,
           'setup_cmd': 'PYTHONPATH=. /opt/venv/bin/python -B -m bfmon.selftest',
           'checks': [{'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'runtime monitoring: ' + T[p['id']], 'level': 'exploration',
                       'level_note': NOTE + EXTRA.get(p['id'], '')} for p in props],
           'not_applicable': [],
           'notes': 'No hooks in /repo: monitors attach from outside (public API, sys.monitoring). Known findings and repaired defects: KNOWN_FINDINGS.txt.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
