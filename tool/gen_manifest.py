#!/usr/bin/env python3
# Writes MANIFEST.json. Properties without an entry in CLAIMS or NA are listed
# as not claimed yet.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
AI = "abstract interpretation of the SSA form (relational numeric domain, byte-set memory domain), whole-module, from every entry point"
MGC = "abstract interpretation of object lifecycles (most general client over constructors and exported methods)"
T = "Trusts the models of the standard library in /verif/tool/models*.go, go/types, go/ssa and the stated caller contracts (DESIGN.md)."
CLAIMS = {
 "P01": (AI, "Every possible panic site reachable from a decoding entry point is decided for all inputs. " + T),
 "P02": (AI + "; ranking functions for loops", "Every loop reachable from a decoding entry point has a ranking or consumes input. " + T),
 "P03": (AI, "Every possible panic site reachable from an encoding or local entry point is decided for all values. " + T),
 "P11": (MGC, "All call sequences and all outcomes of the underlying connection; callbacks are assumed not to call back into the same value except as modelled. " + T),
}
exec(open(os.path.join(here, "claims.py")).read()) if os.path.exists(os.path.join(here, "claims.py")) else None
NA = {
 "N01": "Round-trip equality of encoded values quantifies over runtime values through text parsing and formatting; its structural parts are claimed in P06, P07 and P27.",
 "N02": "The value computed by the hash function is numerical; no static argument in reach bounds it. The structural part (length-only dependence on chunking) is claimed in P17.",
 "N03": "Fidelity of the compressed stream is a property of compress/zlib's runtime output; the switching points are claimed in P13.",
 "N04": "Idempotence of address normalisation quantifies over parsed and re-printed URLs computed by net/url at run time; supported forms are claimed in P24.",
 "N05": "Whether the lock response equals the protocol's key function is a numerical result; its panic freedom and output alphabet are claimed in P01, P03 and P04.",
 "N06": "Correct classification of file names compares strings against a runtime extension; there is no structural rule for it.",
}
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is claimed for this property yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
