#!/usr/bin/env python3
"""overlay.py MC REPO SCRATCH: JSON overlay that adds MC/** to REPO/zz_verifmc/**."""
import json, os, sys
mc, repo, scratch = sys.argv[1:4]
rep = {}
for d, _, fs in os.walk(mc):
    for f in fs:
        if f.endswith(('.go', '.s')):
            p = os.path.join(d, f)
            rep[os.path.join(repo, 'zz_verifmc', os.path.relpath(p, mc))] = p
json.dump({"Replace": rep}, sys.stdout)
