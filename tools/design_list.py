"""Rewrites the list of planted bugs in DESIGN.md from seeded/."""
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
d = {}
names = sorted(os.listdir(os.path.join(HERE, "seeded")))
for n in names:
    a, b = n.split("-", 1)
    d.setdefault(a.upper(), []).append(b)
text = "\n".join("  %s: %s." % (k, ", ".join(v)) for k, v in sorted(d.items()))
i = re.search(r"^  C01: ", s, re.M).start()
j = s.index("\n\n  They include bugs")
s = s[:i] + text + s[j:]
s = re.sub(r"make_seeded.py`\): \d+\.", "make_seeded.py`): %d." % len(names), s)
last = len([f for f in os.listdir(os.path.join(HERE, "tools")) if re.fullmatch(r"bugs\d+\.py", f)])
s = re.sub(r"`tools/bugs1.py` .. `bugs\d+.py`", "`tools/bugs1.py` .. `bugs%d.py`" % last, s)
open(p, "w").write(s)
print(len(names))
