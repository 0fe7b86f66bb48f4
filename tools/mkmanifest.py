"""Writes MANIFEST.json: one check per checks/cNN.py; the rest is not_applicable/pending."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
    "C31": "stateless model checking of the real tool: controlled thread scheduler over all interleavings, all reply orders, all kill points, against an in-process provider with known expected state",
    "C32": "bounded exhaustive exploration of pairs of documents through the real pipeline, both sides read back and compared with the two documents (model checking)",
    "C33": "bounded exhaustive exploration of fixtures on the real loaders against an independent codec (model checking)",
    "C34": "stateless model checking: all request sequences in one process against a fresh process each, and all interleavings of the daemon's timer and serving loop in virtual time",
    "C35": "stateless model checking: all interleavings of two chains and all set iteration orders, each step against the explicit reference model",
    "C23": "bounded exhaustive exploration of operation sequences on the optimized and the plain state in lock step with a map model (model checking)",
    "C21": "bounded exhaustive exploration of all operation sequences on the real state module in lock step with a map model (explicit-state model checking)",
}
DEF = "bounded exhaustive exploration of the real code in lock step with an explicit reference model (model checking)"
NOTE = ("Every case of the stated bounded space is executed on the implementation and on the model and compared after every "
        "step; no sampling. The guarantee is up to those bounds.")
PENDING = json.load(open(os.path.join(R, "tools", "pending.json"))) if os.path.exists(os.path.join(R, "tools", "pending.json")) else {}
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(R, "checks", pid.lower() + ".py")) and pid not in PENDING:
        checks.append(dict(property=pid, quick_cmd=f"bash run.sh {pid} --tier quick", thorough_cmd=f"bash run.sh {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=TECH.get(pid, DEF), level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=pid, reason=PENDING.get(pid, "check not built yet (work in progress)")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are needed: the checks drive public entry points of the unmodified code. fix: commits are listed in known_findings.json.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
