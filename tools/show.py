#!/usr/bin/env python3
"""Show the violations of the last run of a check: show.py C14"""
import json, glob, re, sys
for f in sorted(glob.glob(f"/verif/evidence/replay/{sys.argv[1]}-*.json")):
    r = json.load(open(f))
    print("##", r["key"], str(r["detail"])[:300])
    rp = r.get("replay") or {}
    t = rp.get("trace") or []
    for b in t[-2:]:
        print(b[:1200])
    m = re.search(r"/\\ p = (\d+)", t[-1]) if t else None
    if m and "steps" in rp.get("case", {}):
        print("   step:", json.dumps(rp["case"]["steps"][int(m.group(1)) - 1])[:1500])
