"""Regenerate /verif/DESIGN.md: text below, bounds from the harness registry,
seeded bugs from seeded/*/meta.json and tools/caught.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from px import registry  # noqa: E402

text = open(os.path.join(ROOT, "tools", "design.md")).read()
per = {}
cur = None
head, _, rest = text.partition("<!--PER-->\n")
body, _, tail = rest.partition("<!--END-->\n")
for line in body.splitlines():
    if line.startswith("@C"):
        cur = line[1:].strip()
        per[cur] = []
    elif cur:
        per[cur].append(line)
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
out = [head.rstrip(), ""]
for p in props:
    pid = p["id"]
    c = registry.load(pid)
    out += [f"### {pid} {p['title']}", ""]
    out += ["\n".join(per[pid]).strip(), ""]
    if c.quick:
        groups = {}
        for t in c.quick:
            groups.setdefault(t.name, []).append(t.bound)
        out.append("Quick bounds: ")
        for name, bs in groups.items():
            out.append(f"- `{name}`: " + "; ".join(dict.fromkeys(bs)))
        q = {(t.name, t.bound) for t in c.quick}
        deep = [t for t in c.thorough if (t.name, t.bound) not in q]
        if deep:
            out += ["", "Thorough adds:"]
            groups = {}
            for t in deep:
                groups.setdefault(t.name, []).append(t.bound)
            for name, bs in groups.items():
                out.append(f"- `{name}`: " + "; ".join(dict.fromkeys(bs)))
        out.append("")
    if c.assumptions:
        out += ["Assumed: " + "; ".join(c.assumptions) + ".", ""]
    if c.outside:
        out += ["Outside: " + "; ".join(c.outside) + ".", ""]
out.append(tail.strip())
caught = {}
f = os.path.join(ROOT, "tools", "caught.json")
if os.path.exists(f):
    caught = json.load(open(f))
out += ["", "| planted bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    cb = ", ".join(caught.get(s, [])) or "not caught"
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {cb} |")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
