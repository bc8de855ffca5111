"""table of the planted bugs for DESIGN.md:  python3 tools/seedtable.py"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "p02-max-sign": "no: gradients are also compared when reported together with the Hessian",
    "p04-nondom": "no: the strict filter is checked",
    "p05-igd-ties": "no: duplicate reference points",
    "p08-slice-alias": "no: slice objects as selectors",
    "p06-ref-cache": "no: the reference set moves between evaluations",
    "p11-shift-all": "no: monitor `attained_targets`",
}
try:
    MISSED.update(json.load(open(os.path.join(H, "tools", "missed.json"))))
except FileNotFoundError:
    pass
rows = ["| bug | property | breaks | first |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].strip()} | {MISSED.get(d, 'yes')} |")
p = os.path.join(H, "DESIGN.md")
t = open(p).read()
B, E = "<!-- seeded -->", "<!-- /seeded -->"
if B in t:
    t = t[: t.index(B)] + t[t.index(E) + len(E) :].lstrip("\n")
a = t.index("## Planted bugs")
nxt = t.find("\n## ", a + 5)
nxt = len(t) if nxt < 0 else nxt
t = t[:nxt].rstrip() + f"\n\n{B}\n" + "\n".join(rows) + f"\n{E}\n" + t[nxt:]
open(p, "w").write(t)
