"""Regenerates properties.jsonl, MANIFEST.json and DESIGN.md from props.py, design.md and known_findings.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
from mc.run import all_checks  # noqa: E402
from props import P  # noqa: E402

checks = all_checks()
TECH = {"exploration": "bounded exhaustive enumeration (explicit exploration of the real code) against a definition-based oracle",
        "fault_enumeration": "exhaustive enumeration of faults / nondeterministic choices on the real code",
        "model_checking": "explicit-state model checking with trace replay on the implementation"}
lines, mchecks, secs = [], [], []
for p in P:
    if p["id"] not in checks:
        print("no check yet:", p["id"])
        continue
    c = checks[p["id"]]
    assert c.LEVEL == p["level"], (p["id"], c.LEVEL, p["level"])
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a or "mechanism", "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    tech = p["tech"] or TECH[p["level"]]
    mchecks.append({"property": p["id"], "quick_cmd": "bash run.sh " + p["id"],
                    "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                    "technique": tech, "level": p["level"], "level_note": p["note"]})
    secs.append("### %s %s\n\n%s\n\n* decided by: %s\n* space: %s\n* bound/assumptions: %s%s\n" % (
        p["id"], p["title"], p["statement"], p["design"], c.RULE, p["note"],
        "".join("\n* assumption: " + a for a in c.ASSUMPTIONS)))
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": mchecks, "not_applicable": [],
           "notes": "No hooks in /repo: the nondeterminism (clock, random source) is controlled from outside. "
                    "VERIF_TIER=thorough runs the deeper bounds."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
ft = "\n".join("* " + f for f in kf["fixed"]) + "\n"
kt = "\n".join("* %s (%s): %s — %d listed cases" % (f["id"], f["property"], f["what"], len(f["cases"])) for f in kf["findings"]) + "\n"
d = open(os.path.join(ROOT, "tools", "design.md")).read()
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json"))) if os.path.exists(os.path.join(ROOT, "tools", "caught.json")) else {}
rows = ["| planted change | property | what it breaks | needs | caught by | ran without alarm |", "|---|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))) if os.path.isdir(os.path.join(ROOT, "seeded")) else []:
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    c = caught.get(i, {})
    rows.append("| %s | %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"],
                " ".join(k for k in sorted(c) if c[k] == 1) or "**none**", " ".join(k for k in sorted(c) if c[k] == 0)))
seeded = "\n".join(rows)
d = d.replace("{{PROPERTIES}}", "\n".join(secs)).replace("{{FIXED}}", ft).replace("{{KNOWN}}", kt)
d = d.replace("{{SEEDED}}", seeded)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
