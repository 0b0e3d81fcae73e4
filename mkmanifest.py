"""Regenerates MANIFEST.json from the check modules (run by hand)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core

core.setup_paths()
import importlib

TECH = {
    'C01': 'round-trip and differential property-based testing (Hypothesis) against an independent WIF/DER codec',
    'C02': 'differential property-based testing against a pure-Python secp256k1 and address oracle',
    'C03': 'round-trip, differential and corruption fuzzing of Base58/Base58Check',
    'C04': 'structured fuzzing and differential testing against an independent BIP 173 parser',
    'C05': 'structured fuzzing of destination strings against independent address decoders',
    'C06': 'structured round-trip fuzzing of transactions with an independent serializer and parser',
    'C07': 'property-based testing with an independent script interpreter as oracle',
    'C08': 'model-based testing of signing histories with a script interpreter as oracle',
    'C09': 'model-based testing of batch-signing histories: transaction diff plus script interpreter',
    'C10': 'property-based testing against exact integer bookkeeping',
    'C11': 'property-based testing of fee rate and selection against exact size and feasibility bounds',
    'C12': 'property-based testing of network mixtures against independent address decoders',
    'C13': 'property-based and metamorphic testing of message outputs',
    'C14': 'property-based testing of input sequences against the BIP 125 / BIP 68 rules',
    'C15': 'differential testing of offline against online signing, on simulated explorers',
    'C16': 'differential testing against an independent RFC 6979 ECDSA, and signature corruption fuzzing',
    'C17': 'property-based testing against exact rational arithmetic',
    'C18': 'stateful model-based testing on a virtual clock with fault injection',
    'C19': 'stateful model-based testing on a virtual clock with fault injection',
    'C20': 'model-based testing against simulated block explorers',
    'C21': 'model-based testing against simulated block explorers',
    'C22': 'fault injection: enumerated failing subsets and generated fault positions on simulated explorers',
    'C23': 'fault injection: enumerated accept/reject/fail patterns on simulated explorers, generated transactions',
    'C24': 'stateful model-based testing of refresh histories on simulated explorers',
    'C25': 'stateful model-based testing against simulated nodes and explorers',
    'C26': 'property-based testing with substituted randomness and sampled process schedules',
    'C27': 'differential property-based testing against an independent contract construction',
    'C28': 'round-trip and differential property-based testing around encoding boundaries',
    'C29': 'stateful model-based testing of records',
    'C30': 'stateful testing that inspects every request of generated histories',
    'C31': 'stateful and metamorphic testing: call histories on shared arguments against the same calls made alone',
    'C32': 'model-based testing of signing histories shared with a reference signer; script interpreter as oracle',
    'C34': 'stateful model-based testing against a ledger that verifies, applies and serves every transaction',
    'C35': 'structure-aware mutation of serialized transactions against a strict reference parser',
    'C33': 'stateful testing with fault injection that searches every observable output for the secret',
}
NOTE = {
    'crypto': 'Trusted: the pure-Python oracle in lib/btc.py (checked against published vectors by selftest.py), hashlib, and in bulk signature verification OpenSSL through the cryptography package.',
    'net': 'Trusted: the explorers simulated in lib/net.py (answer formats and paging as the library and the public API documentation describe them); requests are intercepted below the requests library, nothing leaves the process.',
}
NETS = {'C15', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C30', 'C31', 'C33', 'C34'}
checks = []
for i in sorted(TECH):
    mod = importlib.import_module('checks.' + i.lower())
    q = int(sum(s.quick for s in mod.SUBS) * getattr(mod, 'QUICK_SCALE', 3))
    t = sum(s.thorough for s in mod.SUBS)
    note = (
        'Held on every generated case: about %d per quick and %d per thorough run, plus enumerated ones, chosen by VERIF_SEED; '
        'a failure is shrunk to a minimal case stored as replay file. No claim for inputs not generated. ' % (q, t)
    ) + NOTE['net' if i in NETS else 'crypto']
    checks.append(
        {
            'property': i,
            'quick_cmd': './run %s quick' % i,
            'thorough_cmd': './run %s thorough' % i,
            'technique': TECH[i],
            'level': mod.LEVEL,
            'level_note': note,
        }
    )
out = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python selftest.py',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo. See DESIGN.md; known_findings.txt lists repaired and recorded defects.',
}
with open(os.path.join(core.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
