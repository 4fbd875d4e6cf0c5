#!/usr/bin/env python3
"""Rewrites the generated sections of /verif/DESIGN.md: the harnesses of each
property (from their comments and the evidence of the last quick runs) and the
planted bugs (from seeded/ and tools/caught.json)."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
H = {}
for f in sorted(glob.glob(root + "/harness/*/*.go")):
    s = open(f).read()
    for m in re.finditer(r"((?:^//.*\n)*)^func (C\d\d)_(\w+)\(\) *{", s, re.M):
        doc = " ".join(l[2:].strip() for l in m.group(1).splitlines())
        doc = re.sub(r"^C\d\d_\w+:\s*", "", doc)
        body = s[m.end():]; n = re.search(r"^}", body, re.M); body = body[:n.start()] if n and "\n" in body[:n.start()] and not body.split("\n")[0].endswith("}") else body.split("\n")[0]
        bounds = re.findall(r'sym\.Bound\("([^"]+)", *([^,]+), *([^)]+)\)', body)
        if not doc:
            c = re.match(r"\s*([a-z]\w*)\(", body)
            for g in glob.glob(os.path.dirname(f) + "/*.go") if c else []:
                d = re.search(r"((?:^//.*\n)+)^func " + c.group(1) + r"\(", open(g).read(), re.M)
                if d: doc = re.sub("^" + c.group(1) + r"\b( is|:)? *", "", " ".join(l[2:].strip() for l in d.group(1).splitlines()))
        H.setdefault(m.group(2), []).append((m.group(2) + "_" + m.group(3), doc, bounds, os.path.relpath(f, root)))
notes = json.load(open(root + "/tools/cost.json")) if os.path.exists(root + "/tools/cost.json") else {}
out = []
for p in props:
    i = p["id"]
    c = notes.get(i, {})
    out.append(f"### {i} — {p['title']}\n")
    if c:
        out.append(f"Quick run: {c['wall']:.0f} s on 8 cores, {c['paths']} paths, {c['queries']} solver queries, {c['functions']} functions of the repository encoded.\n")
    for name, doc, bounds, f in sorted(H.get(i, [])):
        h = c.get("harnesses", {}).get(name, {})
        b = h.get("bounds") or {}
        bt = ", ".join(f"{k} {v}" for k, v in b.items())
        th = ", ".join(f"{k} {t}" for k, q, t in bounds if q != t)
        line = f"- `{name}` ({os.path.basename(os.path.dirname(f))}): {doc or 'see the source.'}"
        if bt: line += f" Bounds: {bt}."
        if th: line += f" Thorough: {th}."
        if h.get("paths"): line += f" {h['paths']} paths{'' if h.get('complete') else ', within the time budget'}."
        out.append(line)
    out.append("")
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(root + "/tools/caught.json")) if os.path.exists(root + "/tools/caught.json") else {}
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, 'not yet run')} |")
fn = root + "/DESIGN.md"
s = open(fn).read()
for name, lines in (("PROPERTIES", out), ("SEEDS", seeds)):
    a, b = f"<!-- {name} -->\n", f"<!-- END {name} -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n".join(lines) + "\n" + s[j:]
open(fn, "w").write(s)
