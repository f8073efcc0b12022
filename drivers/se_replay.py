"""Behaviours of SetEnvironment enumerated by TLC, replayed in the real code."""
import json
import os
import shutil
import sys
import tempfile

from cpe_real import raw_form
from kw_replay_ini import ini
from se_real import SNAP, SEWorld

EXES = {"bin1": ["tool"], "bin2": ["tool", "tool2"]}


def pairs(m):
    return sorted(map(list, m))


def same_log(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or sorted(map(list, (p for p in x[1] if p[0] in SNAP))) != pairs(y[1]):
            return False
    return True


def agree(op, exp, got):
    if exp[0] == "any":
        return True
    if exp[0] != got[0]:
        return False
    if exp[0] == "err":
        if not (exp[1] == "*" or exp[1] in got[1]):
            return False
        return op not in ("apply", "module") or (pairs(exp[2]) == pairs(got[2]) and same_log(exp[3], got[3]))
    if op in ("apply", "module"):
        return exp[1] == got[1] and pairs(exp[2]) == pairs(got[2]) and same_log(exp[3], got[3])
    if op == "script":
        e, g = exp[1], got[1]
        return all(e[k] == g[k] for k in ("empty", "shebang", "defs")) and g["pure"] == "T" and any(
            x[0] == g["failed"] and pairs(x[1]) == pairs(g["vars"]) and same_log(x[2], g["log"]) for x in e["runs"])
    if op == "pretty":
        return "".join(exp[1]) == got[1]
    if op == "showvars":
        return sorted(exp[1]) == sorted(got[1])
    return exp[1] == got[1]


def run(case, d):
    case = json.loads(json.dumps(case).replace("/R/", d + "/"))
    w = SEWorld(d)
    w.add_bin("bin1", EXES["bin1"], modulecmd=True)
    w.add_bin("bin2", EXES["bin2"])
    w.sysbin()
    form = case["disk"][0][2][0]
    text = ini(form[2])
    if raw_form(text, "=:") != form:
        return "unwritable"
    w.put("f", text)
    w.set_vars({k: v for k, v in case["vars"]}, record=False)
    w.set_plan(case["plan"], record=False)
    w.new(["f"], case["ecl"])
    for n, (op, a, exp) in enumerate(case["steps"]):
        got = w.do(1, op, *a)
        if not agree(op, exp, got):
            return {"step": n, "op": op, "args": a, "expected": exp, "recorded": got}
    return None


def main():
    profile, seed, inp, out = sys.argv[1:5]
    cases = json.load(open(inp, encoding="utf-8"))
    bad, skipped = [], 0
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="rep_"))
    for c in cases:
        d = os.path.join(scratch, "t")
        os.mkdir(d)
        m = run(c, d)
        shutil.rmtree(d)
        if m == "unwritable":
            skipped += 1
        elif m is not None:
            m["case"] = c
            bad.append(m)
            if len(bad) >= 20:
                break
    shutil.rmtree(scratch)
    if skipped * 2 > len(cases):
        raise SystemExit("too many configurations that cannot be written")
    json.dump({"mismatches": bad, "skipped": skipped}, open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    main()
