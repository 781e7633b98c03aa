#!/usr/bin/env python3
"""Lines of /repo/include that look like statements and that no run under build/run-* executed (a map of what the checks do not reach)."""
import json, glob, re, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); hit = {}
for f in glob.glob(H + "/build/run-C*-quick/job*.json"):
    try: d = json.load(open(f))
    except Exception: continue
    for k, v in (d.get("lines") or {}).items():
        k = "include/" + k; i = 0 if k.startswith("include/strf") else -1
        if i >= 0: hit.setdefault(k[i:], set()).update(v)
tot = miss = 0
for root, _, fs in os.walk("/repo/include/strf"):
    for fn in fs:
        p = os.path.join(root, fn); rel = p[p.index("include/strf"):]; h = hit.get(rel, set()); out = []
        for n, l in enumerate(open(p, errors="replace"), 1):
            s = l.strip()
            if not re.match(r"(return\b|if\b|for\b|while\b|\w[\w.\->\[\]:]* *([-+*/|&^%]|<<|>>)?= |\+\+|--|\*\w+ ?= |\*\w+\+\+ = |[\w:.\->]+\(.*\);|goto|break|continue|throw|case )", s): continue
            if re.match(r"(using|typedef|static_assert|template|constexpr|friend|STRF_ASSERT|return_type)", s): continue
            tot += 1
            if n not in h and not any(n + d in h for d in (1,) if s.endswith(("(", "="))): out.append((n, s)); miss += 1
        if out and (len(sys.argv) < 2 or sys.argv[1] in rel):
            print("%s: %d" % (rel, len(out)))
            if len(sys.argv) > 1:
                for n, s in out: print("   %5d %s" % (n, s[:140]))
print(tot, miss)
