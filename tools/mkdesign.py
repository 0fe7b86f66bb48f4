"""Assembles DESIGN.md from tools/design_head.md, the checks' own rules, known_findings.json and seeded/ (run with PYTHONPATH=lib:checks:/repo/src)."""
import importlib
import json
import os

R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {json.loads(l)["id"]: json.loads(l) for l in open(f"{R}/properties.jsonl")}
X = json.load(open(f"{R}/tools/design_extra.json"))
out = [open(f"{R}/tools/design_head.md").read().rstrip(), "", "## Per property", ""]
for pid in sorted(T):
    m = importlib.import_module(pid.lower())
    c = [v for v in vars(m).values() if isinstance(v, type) and getattr(v, "pid", None) == pid][-1]
    x = X["checks"][pid]
    sents = " ".join(c.rule.split())
    out += [f"### {pid} — {T[pid]['title']}", "", f"*Enumerated.* {sents[0].upper() + sents[1:]}.", "",
            f"*Bounds.* Quick: {c.bounds['quick']}. Thorough: {c.bounds['thorough']}.", "",
            f"*Oracle.* {x['oracle']}", ""]
    if c.assumptions:
        out += ["*Assumed.* " + "; ".join(c.assumptions) + ".", ""]
    if x.get("limits"):
        out += [f"*Not claimed.* {x['limits']}", ""]
    out += [f"*Beyond the tests.* {T[pid]['why_tests_cant']}", "", f"*Cost.* Quick about {x['cost']} s on 8 idle cores.", ""]
out += ["## Findings", "", "Defects of the original code that the checks found.  Fixed ones are single `fix:` commits in /repo; reverting any of them makes the property's check fail again.", ""]
for k in json.load(open(f"{R}/known_findings.json")):
    if k["status"] == "fixed":
        out.append(f"* {k['property']} fixed in {k['commit'][:7]}: {k['what']}")
out += ["", "Recorded, not repaired (reported as KNOWN-FINDING):", ""] + [f"* {k['property']}: {k.get('what') or k['line']}" for k in json.load(open(f"{R}/known_findings.json")) if k["status"] != "fixed"]
out += ["", X["known_why"], "", "## Planted changes", "", X["planted"], "", "| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {X['caught'].get(d, m['property'])} |")
out += ["", X["tail"], ""]
open(f"{R}/DESIGN.md", "w").write("\n".join(out))
