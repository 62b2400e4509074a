#!/usr/bin/env python3
"""DESIGN.md from tools/design.md, tools/decide.txt, levels, fixes and seeds."""
import json, os, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
levels = json.loads(rd("tools", "levels.json"))
decide = dict(re.findall(r"^(C\d\d): (.*?)(?=^C\d\d: |\Z)", rd("tools", "decide.txt"), re.M | re.S))
wrap = lambda s, i="": textwrap.fill(" ".join(s.split()), 98, initial_indent=i, subsequent_indent="  " if i else "")
out = []
for p in props:
    i = p["id"]
    out += ["### %s. %s" % (i, p["title"]), "",
            wrap("*Modules*: %s. *Anchors*: %s." % (levels[i]["spec"], ", ".join(
                m["where"] for m in p["anchors"]["mechanism"])), "* "),
            wrap("*Decided by*: " + decide[i], "* "),
            wrap("*Bounds*: " + levels[i]["note"], "* "),
            wrap("*Beyond the tests*: " + p["why_tests_cant"], "* "), ""]
fixes = []
for l in rd("tools", "fixes.txt").splitlines():
    c, subj, what = [x.strip() for x in l.split("|")]
    fixes.append("* %s `%s`: %s" % (c, subj, what))
seeds = ["| change | caught by | breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(rd("seeded", d, "meta.json"))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
t = rd("tools", "design.md").replace("@@PROPS@@", "\n".join(out)).replace("@@FIXES@@", "\n".join(fixes)).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
