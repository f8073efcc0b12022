"""S06: random sections and commands with Lmod as the module tool (traces), and the replay of TLC's cases."""
import json
import os
import shutil
import sys
import tempfile

from common import main
import lm_real
from lm_real import LMWorld
from kw_replay_ini import ini

NAMES = ["gcc/9", "gcc", "cuda/10.1", "cuda", "openmpi", "c", "cc", "intel-18"]
ERRS = ["", "", "", "", "Lmod Warning: be careful", "Lmod has detected the following error: no", "ERROR: x", "error", "0 errors", "Error:", "terror:", "line\nError: y"]
OUTS = ["", "", "", "hello", "error: but only on stdout", "  "]


def plans(r, n):
    return [{"act": r.choice(["do"] * 6 + ["nothing", "nothing", "name", "raise"]), "err": r.choice(ERRS) if r.random() < 0.4 else "",
             "out": r.choice(OUTS)} for _ in range(n)]


def command(r, w):
    c = r.choice(["load", "load", "unload", "swap", "use", "purge", "list"])
    a = r.sample(NAMES, 2)
    if c == "use":
        return [c, str(w.root / r.choice(["there", "gone"]))]
    return [c] + {"load": a[:1], "unload": a[:1], "swap": a, "purge": [], "list": []}[c]


def variables(r, w):
    v = {"PATH": str(w.root / "bin"), "LMOD_CMD": "/opt/lmod"}
    if r.random() < 0.06:
        v["LMOD_CMD"] = ""
    elif r.random() < 0.06:
        del v["LMOD_CMD"]
    if r.random() < 0.3:
        v["A"] = "old"
    return v


def s06(r, w):
    secs = {}
    for s in ["S", "T"]:
        lines, seen = [], set()
        for _ in range(r.randint(0, 7)):
            x = r.random()
            if x < 0.3:
                line = (r.choice(["envvar-set A", "envvar-append A", "envvar-set B", "envvar-prepend B"]), " : v%d" % r.randint(0, 3))
            else:
                c = command(r, w)
                if c[0] == "load" and "/" in c[1] and r.random() < 0.5:
                    n, v = c[1].split("/")
                    line = ("module-load " + n, " : " + v)
                elif c[0] == "load":
                    line = ("module-load " + c[1], r.choice(["", " :"]))
                elif c[0] == "unload":
                    line = ("module-unload " + c[1], "")
                elif c[0] == "swap":
                    line = ("module-swap " + c[1], " : " + c[2])
                elif c[0] == "use":
                    line = ("module-use", " : " + c[1])
                else:
                    line = ("module-purge", "")
            if line[0] not in seen:
                seen.add(line[0])
                lines.append("".join(line))
        if s == "T" and r.random() < 0.5:
            lines.insert(r.randint(0, len(lines)), "use S")
        secs[s] = lines
    w.put("f", "".join("[%s]\n%s\n\n" % (s, "\n".join(x)) for s, x in secs.items()))
    w.vars = variables(r, w)
    env = json.loads(json.dumps(w.env()))
    objs = [w.new(["f"], r.choice([0, 1, 2, 3, 4, 5]) if r.random() < 0.8 else None) for _ in range(r.choice([1, 1, 2]))]
    for _ in range(r.randint(2, 8)):
        w.set_lmod(r.sample(NAMES, r.randint(0, 3)), plans(r, r.randint(0, 5)) if r.random() < 0.7 else [], variables(r, w))
        if r.random() < 0.6:
            w.do(r.choice(objs), "apply", r.choice(["S", "T"]))
        else:
            c = command(r, w)
            if r.random() < 0.5:
                k = r.randint(1, len(c))
                w.do(r.choice(objs), "module", c[:k], c[k:], "T")
            else:
                w.do(r.choice(objs), "module", c[:1], c[1:], "F")
    return env


def gen(profile, r, shard, count):
    out = []
    scratch = tempfile.mkdtemp(prefix="lm_")
    for n in range(count):
        d = os.path.join(scratch, "t")
        os.mkdir(d)
        w = LMWorld(d)
        env = s06(r, w)
        shutil.rmtree(d)
        out.append({"id": "%s-%d-%d" % (profile, shard, n), "env": env, "steps": w.steps})
    shutil.rmtree(scratch)
    return out


def agree(exp, got):
    if exp[0] != got[0] or (exp[0] == "err" and exp[1] not in got[1]) or (exp[0] == "ok" and exp[1] != got[1]):
        return False
    return sorted(map(list, exp[2])) == sorted(map(list, got[2])) and set(exp[3]) == set(got[3]) and exp[4] == got[4] \
        and all(t in got[5] for t in exp[5])


def replay(inp, out):
    cases = json.load(open(inp, encoding="utf-8"))
    bad = []
    scratch = tempfile.mkdtemp(prefix="rep_")
    for n, c in enumerate(cases):
        d = os.path.join(scratch, "t")
        os.mkdir(d)
        case = json.loads(json.dumps(c).replace("/R/", d + "/"))
        w = LMWorld(d)
        w.put("f", ini(case["disk"][0][2][0][2]))
        w.new(["f"], case["ecl"])
        w.set_lmod(case["loaded"], case["plan"], dict(case["vars"]), record=False)
        for op, a, exp in case["steps"]:
            got = w.do(1, op, *a)
            if not agree(exp, got):
                bad.append({"step": op, "expected": exp, "recorded": got, "case": c})
                break
        shutil.rmtree(d)
        if len(bad) >= 20:
            break
    shutil.rmtree(scratch)
    json.dump({"mismatches": bad, "run": n + 1}, open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay":
            replay(sys.argv[3], sys.argv[4])
        else:
            main(gen)
    finally:
        shutil.rmtree(lm_real.HOME, ignore_errors=True)
