#!/usr/bin/env python3
"""Rewrites reached.json: the checks each job of each property reaches on the current tree.
A check listed there that no execution reaches any more is a violation (see report() in check.py).
usage: tools/baseline.py [PROPERTY...]; prints checks no property reaches."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
path = HERE + "/reached.json"
old = json.load(open(path)) if os.path.exists(path) else {}
for p in sys.argv[1:] or list(props.PROPS):
    r = subprocess.run([sys.executable, HERE + "/check.py", p, "quick"], capture_output=True, text=True, env=dict(os.environ, MBAI_BASELINE="1"))
    print(r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr)
    if r.returncode:
        continue
    ev = json.load(open(HERE + "/evidence/%s.json" % p))
    d = {}
    for j in ev["coverage"]["drivers"]:
        k = j["name"]
        d[k] = sorted(set(d.get(k, [])) | {"C:" + m for m in j["checks_only"]})
    old[p] = d
for p in list(old):
    if p not in props.PROPS:
        del old[p]
json.dump(old, open(path, "w"), indent=0, sort_keys=True)
