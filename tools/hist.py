#!/usr/bin/env python3
"""Prints a replay file as a readable history."""
import json, sys
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 10**9
cfg = d["trace"]["cfg"]
if isinstance(cfg, dict):
    for k, v in cfg.items():
        if isinstance(v, list) and v and isinstance(v[0], dict):
            for i, x in enumerate(v):
                print(k, i, json.dumps({a: b for a, b in x.items() if a != "alts"}) if "bl" not in x else json.dumps({a: b if a != "bl" else [{p: q for p, q in y.items() if p != "alts"} for y in b] for a, b in x.items()}))
        else:
            print(k, json.dumps(v))
for i, e in enumerate(d["recorded"]["e"][:min(n, d["step"])]):
    r = e["r"]
    if isinstance(r, dict):
        r = {k: v for k, v in r.items() if k != "q"}
    print(i + 1, json.dumps({k: v for k, v in e["c"].items() if k != "sol"}), "->", json.dumps(r), e.get("what", ""))
print(d["what"])
