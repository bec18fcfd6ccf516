#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md (between its markers)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("""c01-error-text-cut c02-grow-to-declared c04-frames-u16 c05-channel-index-u16 c07-line-after-blank
c07-value-index-modulo c08-from-str-bom c12-peek-prev-mut c14-set-equal c17-cast c01-ctrl-z c01-recursive-parent
c02-unknown-lines c03-end-site-order c07-last-bad-channel c17-frame-time-cut""".split())
extra = os.path.join(root, "tools/missed.txt")
if os.path.exists(extra):
    MISSED |= set(open(extra).read().split())
rows = {}
ids = sorted(os.listdir(f"{root}/seeded"))
for i in ids:
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.setdefault(m["property"], []).append(i[4:] + ("*" if i in MISSED else ""))
t = "| property | bugs caught by its check |\n| --- | --- |\n"
for p in sorted(rows):
    t += f"| {p} | {', '.join(rows[p])} |\n"
s = open(f"{root}/DESIGN.md").read()
s = re.sub(r"%%TABLE%%|\| property \| bugs caught.*?\n\n", lambda _: t + "\n", s, flags=re.S).replace("|\n\n\n", "|\n\n")
s = re.sub(r"seeded/ has (%%N%%|\d+) changes", f"seeded/ has {len(ids)} changes", s)
open(f"{root}/DESIGN.md", "w").write(s)
