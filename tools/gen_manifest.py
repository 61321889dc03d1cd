#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed properties below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
                       "technique": "contract-based deductive verification of the Go source (govc: VCs over go/ssa, SMT)" + ("; bounded check of the parts named in the note" if i in LEVELS else ""),
                       "level": LEVELS[i][0] if i in LEVELS else "proof", "level_note": CLAIMS[i]})
na = [{"property": i, "reason": NOT[i] if i in NOT else "not built yet"} for i in ids if i not in CLAIMS]
m = {"version": 1, "setup_cmd": "mkdir -p bin && cd govc && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -o ../bin/govc .", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
