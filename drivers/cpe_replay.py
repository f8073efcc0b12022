"""Behaviours enumerated by TLC, replayed in the real ConfigParserEnhanced."""
import json
import os
import shutil
import sys
import tempfile

from cpe_real import World, raw_form

TEXT_A = {
    "f": "[A]\nk1 = a1\nuse B\nop p = x\n[B]\nk1 = b1\nk2 = b2\nuse A\n[BAD]\nk3 = c3\nuse MISSING\n",
    "g": "[DEFAULT]\nd = 0\n[A]\nk9 = g9\n[BAD]\nk3 = fine\n",
    "h": "[A]\nk = 1\nk = 2\n",
}
TEXT_B = {
    "f": "[DEFAULT]\nd = 0\nuse A\n[A]\nk1 = a1\nop = x\n[B]\nuse A\nd = 1\nboom = x\n",
    "g": "[A]\nk1 = g1\n",
    "h": None,
}
HS = [["op", "pub", "d", "log", "0"], ["boom", "priv", "d", "raise", "0"]]


def same_reply(op, exp, got):
    if exp[0] == "any":
        return True
    if exp[0] != got[0]:
        return False
    if exp[0] == "err":
        return exp[1] == "*" or exp[1] in got[1]
    if op in ("items_all", "known"):
        k = lambda x: sorted({json.dumps(e) for e in x})
        return k(exp[1]) == k(got[1])
    return exp[1] == got[1]


def same_ev(exp, got):
    return got == [["*"]] or ["*"] in exp or exp == got


LOUD = []      # debug levels to go through; results must not depend on them


def loud(w, i, k):
    if LOUD:
        w.do(i, "set_dbg", LOUD[k % len(LOUD)])


def hist(case, d):
    """C06, C07: one call after one history"""
    w = World(d)
    for n, t in (TEXT_A if case["disk"] == "A" else TEXT_B).items():
        w.put(n, t)
    first = case["ecl"]
    i = w.new(["f"], ecl=first, H=HS)
    loud(w, i, 0)
    for k, (op, a) in enumerate(case["hist"]):
        w.do(i, op, *a)
        loud(w, i, k + 1)
    w.do(i, case["call"][0], *case["call"][1])
    op, a, r, ev = w.steps[-1][1:]
    if same_reply(op, case["r"], r) and same_ev(case["ev"], ev):
        return None
    return {"recorded": [r, ev]}


def ini(cfg):
    out = []
    for s, os_ in cfg:
        out.append("[%s]" % s)
        for k, tag, text in os_:
            out.append(k if tag == "n" else k + " = " + text.replace("\n", "\n\t"))
    return "\n".join(out) + "\n"


def walk(case, d):
    """C01-C04: one parse of one section of one configuration"""
    w = World(d)
    w.put("f", ini(case["cfg"]))
    if raw_form(ini(case["cfg"]), "=:")[2] != case["cfg"]:
        raise RuntimeError("not what the standard library reads: %r" % case["cfg"])
    i = w.new(["f"], ecl=case["ecl"], H=case.get("H", [["op", "pub", "d", "log", "0"]]))
    loud(w, i, 0)
    w.do(i, "parse", case["root"], "T" if case["init"] else "F", "T" if case["fin"] else "F")
    r, ev = w.steps[-1][3:]
    exp = ["err", case["err"]] if case["err"] else ["ok", case["log"]]
    if not same_reply("parse", exp, r) or ev != case["ev"]:
        return {"recorded": [r, ev]}
    if not case["err"]:
        loud(w, i, 1)
        w.do(i, "getitem", case["root"])
        r, ev = w.steps[-1][3:]
        if r != ["ok", case["data"]] or ev:
            return {"recorded": [r, ev]}
    return None


KINDS = {
    "one": "[A]\nk = 1\nm = 1\n", "two": "[B]\nj = 2\n[A]\nk = 2\nuse B\n", "three": "[A]\nm\nn = 3\n", "empty": "",
    "bare": "[A]\n\n[C]\n", "dupopt": "[A]\nk = 1\nk = 2\n", "dupsec": "[A]\nk = 1\n[A]\nk = 2\n", "nohead": "k = 1\n[A]\n",
    "gone": None, "dir": "<dir>",
}


def steps(case, d):
    """a whole history of one or two instances"""
    w = World(d)
    if case["disk"]:
        for n, kind, forms in case["disk"]:
            w.put(n, ini(forms[0][2]))
        if w.disk() != case["disk"]:
            raise RuntimeError("not what the standard library reads: %r" % case["disk"])
    else:
        for n, t in KINDS.items():
            w.put(n, t)
    for n, (i, op, a, r, ev) in enumerate(case["steps"]):
        if op == "new":
            w.new(a[0], a[1], a[2], a[3])
            continue
        w.do(i, op, *a)
        got_r, got_ev = w.steps[-1][3:]
        if not same_reply(op, r, got_r) or not same_ev(ev, got_ev):
            return {"step": n, "expected": [r, ev], "recorded": [got_r, got_ev]}
    return None


def main():
    profile, seed, inp, out = sys.argv[1:5]
    fn = {"hist": hist, "walk": walk, "steps": steps}[profile.replace("-loud", "")]
    cases = json.load(open(inp, encoding="utf-8"))
    bad = []
    scratch = tempfile.mkdtemp(prefix="rep_")
    for n, c in enumerate(cases):
        d = os.path.join(scratch, "t")
        os.mkdir(d)
        if profile.endswith("-loud"):
            LOUD[:] = [[1], [2], [3], [4], [5], [6], [99], [5, 0, 3], [0, 5]][n % 9]
        m = fn(c, d)
        shutil.rmtree(d)
        if m is not None:
            m["case"] = c
            bad.append(m)
            if len(bad) >= 20:
                break
    shutil.rmtree(scratch)
    json.dump({"mismatches": bad, "run": n + 1}, open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    main()
