import json
import sys
from collections import Counter, defaultdict
V = defaultdict(list)
for l in open(sys.argv[1]):
    r = json.loads(l)
    V[r["mod"].split("optimization.", 1)[1], r["fn"], r["kind"], r["k"]].append(r)
rank = ["different", "undecided", "giveup", "crash", "timeout", "equal"]
tot = Counter()
by = defaultdict(Counter)
lst = defaultdict(list)
for key, rs in V.items():
    st = min((r["status"] for r in rs), key=rank.index)
    tot[st] += 1
    by[key[2]][st] += 1
    lst[st].append((key, [r for r in rs if r["status"] == st]))
print(dict(tot))
for k, c in sorted(by.items()):
    print("  ", k, dict(c))
for st in sys.argv[2:]:
    for key, rs in sorted(lst[st], key=lambda z: z[0]):
        print(st, *key, rs[0]["drv"], [d[:2] if isinstance(d, str) else d[:3] for d in rs[0]["diffs"][:1]])
