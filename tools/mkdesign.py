#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md, a section per property from the rules' CHECKS tables, properties.jsonl
and the last evidence files, the table of planted bugs (tools/catches.json), tools/design_tail.md"""
import importlib, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "rules"))
import run
from mkmanifest_na import NA

props = [json.loads(l) for l in open(V + "/properties.jsonl")]
cat = json.load(open(V + "/tools/catches.json"))
extra = {}
cur = None
for l in open(V + "/tools/design_props.md"):
    if l.startswith("# C"):
        cur = l[2:].strip()
        extra[cur] = ""
    elif cur:
        extra[cur] += l
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for p in props:
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if i not in run.MODULES:
        out += ["Not applicable. " + NA[i], ""]
        continue
    m = importlib.import_module(run.MODULES[i]).CHECKS[i]
    out += [f"*Technique:* {m['technique']}.  *Code:* `rules/{run.MODULES[i]}.py`.", "", m["explanation"].strip(), ""]
    out += [f"- **{k}**: {v}" for k, v in m["rules"].items()]
    out += ["", "*Reach:* " + m["note"].strip()]
    if m.get("assumptions"):
        out += ["*Assumes:* " + "; ".join(m["assumptions"]) + "."]
    try:
        e = json.load(open(f"{V}/evidence/{i}.json"))
        c = e["coverage"]
        out += [f"*Last run (quick):* {c['obligations']} instances examined, {c['discharged']} hold, {c['obligations'] - c['discharged']} undecided; {e['wall_s']:.0f} s."]
    except (OSError, KeyError):
        pass
    bugs = [b for b in sorted(cat) if cat[b]["property"] == i]
    if bugs:
        out += ["*Planted bugs:* " + ", ".join(f"{b}" + ("" if cat[b]["caught"] else " (missed)") for b in bugs) + "."]
    if extra.get(i, "").strip():
        out += ["", extra[i].strip()]
    out += [""]
out += ["## Planted bugs and the checks that catch them", "", "Each bug was run against the check of its property on a patched copy of the tree (`tools/catches.py`).", "",
        "| bug | needs | caught by | first report |", "|---|---|---|---|"]
for b in sorted(cat):
    meta = json.load(open(f"{V}/seeded/{b}/meta.json"))
    c = cat[b]
    l = (c.get("lines") or [""])[0].strip().replace("|", "\\|")
    out += [f"| {b} | {meta['needs'][:160]} | {c['property'] if c['caught'] else '**missed**'} | {l[:170]} |".replace("\n", " ")]
n = sum(1 for b in cat if cat[b]["caught"])
out += ["", f"{n} of {len(cat)} are caught.", "", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)), "bytes")
