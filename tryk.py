#!/usr/bin/env python3
"""tryk.py <tag> <sections,comma> <seconds> harness...   (development aid: run some harnesses)"""
import sys, time, os
import check
tag, secs, limit, hs = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), sys.argv[4:]
os.makedirs(check.WORK, exist_ok=True)
t = time.time()
r, e = check.kani(tag, secs, hs, time.time() + limit)
if e:
    print("ERR", e); 
    for l in open(os.path.join(check.WORK, "kani-%s.log" % tag)):
        if not l.startswith("warning"): sys.stdout.write(l) if "error" in l or "-->" in l or l.startswith("  ") and False else None
for n, v in r.items():
    print("%-45s %-10s %5d checks %6.1fs %s" % (n, v["verdict"], v["total"], v["time"], v["why"]))
    for d, l, c in v["failed"][:8]: print("     ", d, l)
print("%.0f s" % (time.time() - t))
