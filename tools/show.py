#!/usr/bin/env python3
"""Prints a replay file: show.py FILE [lines]"""
import json, sys
d = json.load(open(sys.argv[1])); n = int(sys.argv[2]) if len(sys.argv) > 2 else 30
print(d["what"]); s = d["scenario"]
print({k: v for k, v in s.items() if k != "Ops"})
for o in s.get("Ops", []): print("   ", {k.lower(): v for k, v in o.items()})
for x in d["history"][-n:]: print(x[:230])
print("AT", d["at"]); print(d["output"][:6000])
