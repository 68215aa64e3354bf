#!/usr/bin/env python3
"""Writes CONTRACTS.md: every contract with its first line (and bound)."""
import json
import os
import check
out = ["# Contracts\n"]
n = 0
for p in [json.loads(l)["id"] for l in open(os.path.join(check.HERE, "properties.jsonl"))]:
    out.append("\n## %s\n\n" % p)
    for name, budget, bounded, doc in check.contract_names(p):
        n += 1
        out.append("- `%s`: %s%s\n" % (name, " ".join((doc or "").split()), " **bounded: %s**" % bounded if bounded else ""))
open(os.path.join(check.HERE, "CONTRACTS.md"), "w").write("".join(out))
print(n)
