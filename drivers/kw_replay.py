"""Behaviours of the keyword tools enumerated by TLC, replayed in the real code."""
import json
import os
import shutil
import sys
import tempfile

from cpe_real import raw_form
import kw_real
from kw_replay_ini import ini
from kw_real import HOST, KWWorld, items

KEYS = ["supported-config-flags", "config-specs", "supported-systems", "supported-envs", "environment-specs"]


RULE = "+" + "=" * 78 + "+"


def block(text):
    ls = text.split("\n")
    return len(ls) > 3 and ls[0] == "" == ls[-1] and ls[1] == RULE == ls[-2] and all(x.startswith("|") for x in ls[2:-2]) and all(x == x.rstrip(" \t") for x in ls)


def mentions(names, text):
    squash = lambda t: t.replace("\n", "").replace("|", "").replace(" ", "")
    return all(squash(x) in squash(text) for x in names)


def agree(exp, got):
    if exp[0] in ("report", "errs"):
        text = got[2] if len(got) > 2 and isinstance(got[2], str) else ""
        return got[0] == ("exit" if exp[0] == "report" else "err") and (exp[1] == got[1] or exp[1] in got[1]) \
            and block(text) and mentions(exp[2][1], text) and (exp[0] == "errs" and not exp[2][0] or set(items(text)) == set(exp[2][0]))
    if exp[0] != got[0]:
        return False
    if exp[0] == "err":
        return exp[1] == "*" or exp[1] in got[1]
    if exp[0] == "exit":
        return exp[1] == got[1] and mentions(exp[2], got[2]) and (exp[1] != "fail" or not exp[2] or block(got[2])) and (len(exp) < 4 or exp[3] == got[3])
    return exp[1] == got[1]


def run(case, d):
    w = KWWorld(d)
    HOST[0] = case["host"]
    for name, kind, forms in case["disk"]:
        text = ini(forms[0][2])
        if raw_form(text, "=:") != forms[0]:
            return "unwritable"
        w.file(name, text)
    if len(case["steps"]) > 1 and case["steps"][1][0] == "outs":
        for f, t in case["steps"][1][2][1]:
            (w.root / f).parent.mkdir(parents=True, exist_ok=True)
            (w.root / f).write_text(t)
            w.outs[f] = t
    i = None
    for n, (op, a, exp) in enumerate(case["steps"]):
        if op == "make":
            kw = {}
            if a[0] == "le":
                kw["argv"] = [a[2]] + (["--force"] if a[3] == "T" else []) + [x for k, f in zip(KEYS[2:], a[4:7]) if f for x in ("--" + k, str(w.root / f))]
            elif a[0] == "gc":
                kw["argv"] = ["--cmake-fragment", str(w.root / a[5]), a[2]] + (["--force"] if a[3] == "T" else []) + (["--yes"] if a[6] == "T" else [])
            elif a[0] == "gm":
                m = [x == "T" for x in a[7]]
                kw["argv"] = ["--list-config-flags"] * m[0] + ["-l"] * m[1] + ["--save-load-env-args", str(w.root / a[8])] * m[2] \
                    + ["--cmake-fragment", str(w.root / a[5])] * m[3] + [a[2]] + ["--force"] * (a[3] == "T")
                (w.root / "sv").mkdir()
            w.make(*a, **kw)
            i = len(w.objs)
            if a[0] in ("gc", "gm") and w.objs[-1] is not None:
                w.objs[-1].xfrag = w.root / a[5]
        else:
            w.do(i, op, *a)
        got = w.steps[-1][3]
        if not agree(exp, got):
            return {"step": n, "op": op, "args": a, "expected": exp, "recorded": got}
        if got[0] != "ok" and op == "make":
            break
    return None


def main():
    profile, seed, inp, out = sys.argv[1:5]
    cases = json.load(open(inp, encoding="utf-8"))
    bad, skipped = [], 0
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="rep_"))
    for c in cases:
        d = os.path.join(scratch, "t")
        os.mkdir(d)
        m = run(c, d)
        shutil.rmtree(d)
        if m == "unwritable":
            skipped += 1
        elif m is not None:
            m["case"] = c
            bad.append(m)
            if len(bad) >= 20:
                break
    shutil.rmtree(scratch)
    if skipped * 2 > len(cases):
        raise SystemExit("too many configurations that cannot be written")
    json.dump({"mismatches": bad, "skipped": skipped}, open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    main()
