"""Histories of sourcing the wrappers enumerated by TLC, replayed in a real shell."""
import json
import os
import shutil
import sys
import tempfile

from cpe_real import raw_form
import kw_real
from kw_real import HOST
from kw_replay_ini import ini
from sh_real import ShWorld


def pairs(m):
    return sorted(map(tuple, m))


def same_log(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and set(pairs(y[1])) <= set(pairs(x[1])) and
                                    all(v in dict(pairs(y[1])) for v in ("A", "B", "C", "M1") if v in dict(pairs(x[1]))) for x, y in zip(a, b))


def agree(e, g):
    if e[0] != g[0]:
        return False
    if e[0] == "exited":
        return pairs(e[1]) == pairs(g[1]) and same_log(e[2], g[2])
    return ((g[1] != "0") if e[1] == "fail" else e[1] == g[1]) and pairs(e[2]) == pairs(g[2]) and same_log(e[3], g[3]) and e[5] == g[5] and \
        len(e[4]) == len(g[4]) and (not e[4] or pairs(e[4][0]) == pairs(g[4][0]) and e[4][1:] == g[4][1:])


def run(case, d):
    w = ShWorld(d)
    HOST[0] = "h1"
    w.add_bin("bin1", [], modulecmd=True)
    w.install()
    case = json.loads(json.dumps(case).replace("/R/", str(w.root) + "/").replace('"/U"', json.dumps(kw_real.USER[0])))
    for name, kind, forms in case["disk"]:
        text = ini(forms[0][2])
        if raw_form(text, "=:") != forms[0]:
            raise SystemExit("cannot write " + name)
        w.file(name, text)
    (w.root / "no").mkdir()
    w.set_vars(dict(case["vars"]), record=False)
    try:
        for n, s in enumerate(case["steps"]):
            m, a = s["make"], s["source"]
            argv = ["--ci-mode"] * (a[1] == "T")
            if a[0] == "load":
                argv += ["--force"] * (m[3] == "T") + ["--list-envs"] * (m[7] == "T") + ["--what"] * (a[4] == "bad")
                argv += (["--environment-specs", str(w.root / m[6])] if m[6] else []) + [m[2]]
            else:
                argv += ["--cmake-fragment", str(w.root / m[5]), "--yes"] * (m[7][3] == "T") + [m[2]] + [str(w.root / "srcdir")] * (a[2] == "T")
            if a[4] == "none":
                argv = []
            got = w.source(0, a[0], argv, a[1], a[2], ["e1"] if a[3] == "T" else [], a[4], a[5])
            if not agree(s["r"], got):
                return {"step": n, "op": "source", "args": [argv, a], "expected": s["r"], "recorded": got}
            outs = kw_real._outs(w, None)[1]
            if outs != s["outs"]:
                return {"step": n, "op": "fragment", "args": [argv, a], "expected": s["outs"], "recorded": outs}
    finally:
        w.stop()
    return None


def main():
    profile, seed, inp, out = sys.argv[1:5]
    cases = json.load(open(inp, encoding="utf-8"))
    bad = []
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="rep_"))
    for c in cases:
        d = os.path.join(scratch, "t")
        os.mkdir(d)
        m = run(c, d)
        shutil.rmtree(d)
        if m is not None:
            m["case"] = c
            bad.append(m)
            if len(bad) >= 20:
                break
    shutil.rmtree(scratch)
    json.dump({"mismatches": bad, "skipped": 0}, open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    main()
