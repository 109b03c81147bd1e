#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed and how."""
import json, sys, os
NOTE = {}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
UNCLAIMED = {} # id -> reason
for a in sys.argv[1:]:
    UNCLAIMED[a] = "check not built yet"
tech = {
 'C': "explicit-state model checking: bounded exhaustive exploration of operation sequences on the real contract code under a chain simulator, judged by an independent reference model",
 'A': "explicit-state model checking: bounded exhaustive exploration of operation sequences on the real airdrop contract, judged by an independent reference model",
 'P': "explicit-state model checking: exhaustive enumeration of router operations and their whole message cascade on the real contracts under a chain simulator",
 'M': "bounded exhaustive enumeration of inputs and operation sequences on the real code, judged by an independent high-precision reference",
}
note = {
 'C': "Exhaustive within the stated bounds (operation alphabet, depth, start states); every transition is executed by the repository's own contract code. Trusts the chain simulator (bank, tokenfactory, pool manager rules, documented in DESIGN.md) and the reference model; values outside the alphabets and longer histories are not covered.",
 'A': "Exhaustive within the stated bounds (operation alphabet, depth, trees, accounts); every transition is executed by the repository's own contract code. Trusts the bank simulator and the reference model; sha256 and secp256k1 are taken as ideal.",
 'P': "Exhaustive within the stated grids of amounts, portfolios, fees and pools; every execution runs the repository's router, index contract and pool code end to end. Trusts the chain simulator's pool arithmetic (18-decimal pow as in Osmosis).",
 'M': "Exhaustive over the stated grids and sequences; the oracle is an independent 512-bit fixed-point implementation. Values between grid points are not covered.",
}
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in UNCLAIMED:
        m['not_applicable'].append({"property": i, "reason": UNCLAIMED[i]})
        continue
    m['checks'].append({"property": i, "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "technique": tech[i[0]], "level": "model_checking", "level_note": note[i[0]]})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
