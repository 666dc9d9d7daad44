#!/usr/bin/env python3
"""shows the two sides of a recorded mismatch where they begin to differ"""
import json, re, sys
for p in sys.argv[1:]:
    r = json.load(open(p)); t = r["reason"]
    m = re.search(r"\{<<<<", t) or re.search(r"found", t) or re.search(r"\], \[", t)
    if not m: print(t[:2000]); continue
    a, b = t[:m.start()], t[m.start():]
    i = a.find("[f |->"); j = b.find("[f |->")
    a, b = a[max(i,0):], b[max(j,0):]
    k = next((n for n in range(min(len(a), len(b))) if a[n] != b[n]), 0)
    print(p, "failing op", r["failing_op"], "\n  exp ...%s\n  got ...%s" % (a[max(0, k - 150):k + 250], b[max(0, k - 150):k + 250]))
