"""Writes the table of harnesses into DESIGN.md (between the markers) from the checks themselves."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("SX_REPO", "/repo"), os.path.join(os.environ.get("SX_REPO", "/repo"), "scripts")]
from sx import common  # noqa: E402

BEGIN, END = "<!-- harnesses: begin -->", "<!-- harnesses: end -->"
out = []
props = {p["id"]: p for p in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}
for i, p in props.items():
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        continue
    importlib.import_module("checks." + i.lower())
    out.append(f"**{i} {p['title']}** ({', '.join(p['anchors']['files'])})\n")
    for h in common.REG:
        if h.prop != i:
            continue
        f = lambda ps: "; ".join(", ".join(f"{k}={v}" for k, v in q.items()) for q in ps)
        b = f(h.params)
        t = f(h.thorough) if h.thorough else ""
        b = f" Quick: {b}." if b else ""
        t = f" Thorough: {t}." if t else ""
        out.append(f"- `{h.name}`: {' '.join((h.fn.__doc__ or '').split())}.{b}{t}")
    out.append("")
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
a, b = s.index(BEGIN) + len(BEGIN), s.index(END)
open(path, "w").write(s[:a] + "\n\n" + "\n".join(out) + "\n" + s[b:])

import glob

s = open(path).read()
rows = ["| seed | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
B, E = "<!-- seeds: begin -->", "<!-- seeds: end -->"
a, b = s.index(B) + len(B), s.index(E)
open(path, "w").write(s[:a] + "\n\n" + "\n".join(rows) + "\n\n" + s[b:])
