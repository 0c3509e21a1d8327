#!/usr/bin/env python3
"""Fill the property sections and the table of planted changes into DESIGN.md (from DESIGN.in.md)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
notes = json.load(open(R + "/tools/design_notes.json"))
out = []
for p in props:
    i = p["id"]
    src = open(f"{R}/harness/props/{i}.cc").read()
    m = re.search(r"kRule\s*=\s*((?:\s*\"(?:[^\"\\]|\\.)*\")+)\s*;", src)
    rule = "".join(re.findall(r"\"((?:[^\"\\]|\\.)*)\"", m.group(1)))
    arms = sorted(set(re.findall(r"VP_ARM(?:_FUZZ)?\(([a-z_0-9]+),", src)) - {"name"})
    fl = re.search(r"flavours=(\S+)", src)
    out.append(f"### {i} {p['title']}\n\n*Generated and compared:* {rule}\n\n*Why / bounds:* {notes.get(i, '')}\n\n"
               f"*Arms:* {', '.join(arms)}{' (and per-type variants made by macros)' if 'define' in src else ''}. "
               f"*Builds:* {fl.group(1) if fl else 'asan'} (with UBSan).\n")
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
missed = notes.get("missed", {})
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    s = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    seeds.append(f"| {s} | {m['property']} | {m['needs']} | {missed.get(s, m['property'])} |")
t = open(R + "/DESIGN.in.md").read()
open(R + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", "\n".join(out).rstrip()).replace("@@SEEDS@@", "\n".join(seeds)))
