"""plant.py SPEC.py [ID...]: builds seeded/<id>/ from a list BUGS of dicts(id, property, file, edits=[(old, new)], demo, needs, what); works on scratch copies under /tmp/plant.

For each: applies the edits to a copy of /repo, writes patch.diff/demo.sh/demo.py/meta.json, verifies tests, demo and blame, and runs the property's quick check on the copy.
(Development tool: no registered check uses it.)"""
import json
import os
import re
import shutil
import subprocess as sp
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "a65cfc0"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = """#!/bin/bash
exec env MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import os
import sys
sys.path.insert(0, os.getcwd())
"""


def sh(cmd, **kw):
    return sp.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(b, check=True):
    d = "/tmp/plant/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    out = []
    edits = b.get("edits") or [(b["old"], b["new"])]
    for e in edits:
        f = e[2] if len(e) > 2 else b["file"]
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(e[0]) != 1:
            return b["id"], ["EDIT MATCHES %d TIMES: %s" % (s.count(e[0]), e[0][:60])]
        open(p, "w").write(s.replace(e[0], e[1]))
    diff = sh("git diff", cwd=d).stdout
    # every removed line must stem from the original repository
    for f in set(re.findall(r"^\+\+\+ b/(.*)$", diff, re.M)):
        bl = sh("git blame -s HEAD -- " + f, cwd=d).stdout.splitlines()
        cur = None
        part = diff.split("+++ b/" + f)[1].split("\ndiff --git")[0]
        for l in part.splitlines():
            m = re.match(r"@@ -(\d+)", l)
            if m:
                cur = int(m.group(1))
            elif cur is not None:
                if l.startswith("-"):
                    if not bl[cur - 1].startswith("^"):
                        h = bl[cur - 1].split()[0]
                        if sh("git merge-base --is-ancestor %s %s" % (h, BASE), cwd=d).returncode:
                            out.append("NOT ORIGINAL: " + l)
                if not l.startswith("+"):
                    cur += 1
    s = os.path.join(V, "seeded", b["id"])
    os.makedirs(s, exist_ok=True)
    open(s + "/patch.diff", "w").write(diff)
    open(s + "/demo.sh", "w").write(DEMO)
    os.chmod(s + "/demo.sh", 0o755)
    open(s + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(s + "/meta.json", "w"), indent=1)
    env = dict(os.environ, PYTHONPATH="/opt/vp/plugins", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    t = sh("/opt/venv/bin/python -m pytest -p seed_numpy tests -q -p no:cacheprovider --timeout=300 -rA", cwd=d, env=dict(env, PYTHONPATH="/opt/vp/plugins:" + d)).stdout
    passed = {"tests." + x.replace("tests/", "").replace(".py", "") for x in re.findall(r"^PASSED (\S+)", t, re.M)}
    bad = STABLE - passed
    if bad:
        out.append("TESTS FAIL: %s" % sorted(bad))
    for where, want in (("/repo", True), (d, False)):
        try:
            q = sh("bash %s/demo.sh" % s, cwd=where, timeout=300)
            if (q.returncode == 0) != want:
                out.append("DEMO in %s exits %d: %s" % ("repo" if want else "mutant", q.returncode, (q.stdout + q.stderr)[-300:]))
        except sp.TimeoutExpired:
            out.append("DEMO TIMEOUT in " + where)
    if check:
        for pid in [b["property"]] + b.get("also", []):
            q = sh("bash run.sh " + pid, cwd=V, env=dict(os.environ, SW_REPO=d, SW_PROCS=os.environ.get("SW_PROCS", "4"), SW_NOEVIDENCE="1"))
            hit = [l for l in q.stdout.splitlines() if "violations=" in l]
            out.append("%s exit=%d %s" % (pid, q.returncode, re.sub(r".*(violations=\d+).*(wall=.*)", r"\1 \2", hit[-1]) if hit else q.stderr[-200:]))
    shutil.rmtree(d, ignore_errors=True)
    return b["id"], out


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    bugs = [b for b in ns["BUGS"] if not ids or b["id"] in ids]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for i, o in ex.map(one, bugs):
            print(i, "|", " | ".join(o), flush=True)
            c = os.path.join(V, "tools", "caught.json")
            d = json.load(open(c)) if os.path.exists(c) else {}
            for l in o:
                m = re.match(r"(C\d\d) exit=(\d)", l)
                if m:
                    d.setdefault(i, {})[m.group(1)] = int(m.group(2))
            json.dump(d, open(c, "w"), indent=0, sort_keys=True)
