#!/usr/bin/env python3
"""Writes section 8 of DESIGN.md (which check and space catches which planted bug) from logs of the own checks:
tools_table.py DIR, with DIR/hunt.<bug>.<check>.log the output of that check with that bug applied."""
import glob, json, os, re, sys
d = os.path.dirname(os.path.abspath(__file__))
rows, missed = [], []
for f in sorted(glob.glob(d + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    try:
        t = open(f"{sys.argv[1]}/hunt.{i}.{m['property']}.log").read()
    except OSError:
        t = ""
    s = re.search(r"^space:\s*(.*)", t, re.M)
    o = re.search(r"^oracle:\s*(\S+?):", t, re.M)
    ok = re.search(r"^VIOLATION property=" + m["property"], t, re.M)
    if not ok:
        missed.append(i)
    rows.append(f"| {i} | {m['needs']} | {('`' + o.group(1) + '`, ') if o else ''}{s.group(1) if s else '**not caught**' if not ok else ''} |")
p = d + "/DESIGN.md"
t = open(p).read().split("\n## 8. ")[0].rstrip("\n")
t += f"""

## 8. Planted bugs
`seeded/` holds {len(rows)} changes that compile, pass the tests and break one property each, written from the properties' text and the code. Each is confirmed by a demonstration
over real sockets. With each applied, its own property's check reports it{' (except ' + ', '.join(missed) + ')' if missed else ''}; shown is the first space in which it does, and the oracle. Most are caught by further properties' checks too.

| bug | needs | caught by its own check: oracle, space |
|---|---|---|
"""
t += "\n".join(rows) + "\n"
open(p, "w").write(t)
print(len(rows), "rows; missed:", missed)
