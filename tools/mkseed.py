#!/usr/bin/env python3
"""mkseed.py DEFS.py [ID...]: makes and confirms planted bugs (a development tool, not used by any check).

DEFS.py defines SEEDS = {id: dict(property, edits=[(file, old, new)], demo=python text, needs, breaks)}.
Each is confirmed against /repo: the patch applies, the build works, the stable tests pass, the demonstration
passes without and fails with it; then the check of its property is run against it."""
import importlib.util, json, os, subprocess, sys
REPO, HERE = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
unset MODULESHOME
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$R/src:$R/wip/setenvironment/src:$R/wip/keywordparser:$R/wip/determinesystem:$R/wip/genconfig:$R/wip/loadenv
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && REPO=$R /opt/venv/bin/python "$here/demo.py" > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
'''

def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def clean():
    sh("git", "-C", REPO, "checkout", "--", ".")

def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    defs = importlib.util.module_from_spec(spec); spec.loader.exec_module(defs)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout, "repo not clean"
    for sid, d in defs.SEEDS.items():
        if sys.argv[2:] and sid not in sys.argv[2:]:
            continue
        out = os.path.join(HERE, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.py", "w").write(d["demo"])
        open(out + "/demo.sh", "w").write(DEMO_SH)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        msg = []
        try:
            r = sh("bash", out + "/demo.sh", cwd=REPO)
            if r.returncode: msg.append("DEMO FAILS ON CLEAN TREE: " + r.stdout[-600:])
            for f, old, new in d["edits"]:
                p = os.path.join(REPO, f); s = open(p).read()
                if s.count(old) != 1: msg.append("edit matches %d times: %s" % (s.count(old), old[:60])); continue
                open(p, "w").write(s.replace(old, new))
            open(out + "/patch.diff", "w").write(sh("git", "-C", REPO, "diff").stdout)
            if sh("bash", "/opt/vp/build.sh").returncode: msg.append("build fails")
            sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json")
            miss = stable - set(json.load(open("/tmp/seedtest.json"))["passed"])
            if miss: msg.append("tests fail: %s" % sorted(miss)[:3])
            r = sh("bash", out + "/demo.sh", cwd=REPO)
            if r.returncode == 0: msg.append("demo passes with the patch")
            if not msg:
                r = sh("python3", "check.py", d["property"], cwd=HERE)
                msg.append({0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR") + " " + r.stdout.strip().splitlines()[-1][:160])
                if r.returncode == 2: msg.append(r.stdout[-800:] + r.stderr[-800:])
        finally:
            clean()
        print(sid, " | ".join(msg), flush=True)

main()
