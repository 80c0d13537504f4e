#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample natively again."""
import json, sys
sys.path.insert(0, "/verif/tools")
import check
d = json.load(open(sys.argv[1]))
r, o = check.native(d["property"], d["entry"], d["input"], 60)
print(o)
print("outcome:", r)
sys.exit(1 if check.reproduces(d["kind"], r) else 0)
