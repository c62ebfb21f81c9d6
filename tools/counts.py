"""Brings the numbers of seeded changes in DESIGN.md up to date."""
import collections, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = collections.Counter(json.load(open(os.path.join(top, "seeded", d, "meta.json")))["property"]
                        for d in os.listdir(os.path.join(top, "seeded")))
p = os.path.join(top, "DESIGN.md")
s = open(p).read()
s = re.sub(r"`p(\d\d)-\*` \(\d+\)", lambda m: "`p%s-*` (%d)" % (m[1], n["P" + m[1]]), s)
open(p, "w").write(s)
print(sum(n.values()), sorted(n.items()))
