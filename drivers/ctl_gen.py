"""Exception control and debug output: random histories, and replay."""
import contextlib
import glob
import io
import json
import os
import sys

from common import call, harvest, main

from configparserenhanced import ConfigParserEnhanced, Debuggable, ExceptionControl

REPO = os.environ.get("VERIF_REPO", "/repo")
WORDS, INTS = harvest(sorted(glob.glob(REPO + "/src/configparserenhanced/*.py")))


class Custom(Exception):
    pass


class CustomSub(Custom, ValueError):
    pass


EXC = {c.__name__: c for c in (ValueError, KeyError, RuntimeError, OSError, TypeError, IndexError, NotImplementedError,
                               SystemExit, Custom, CustomSub)}


class Both(Debuggable, ExceptionControl):
    pass


class OnlyEC(ExceptionControl, Debuggable):
    def __init__(self):
        self.x = 1


KINDS = [Both, OnlyEC, ConfigParserEnhanced]


class Fail:
    def __init__(self, r):
        self.r = r


BADINT = [["ValueError", "ValueError"], ["TypeError", "TypeError"], ["TypeError", "list"]] + [
    ["ValueError", "text:" + x] for x in ("3.7", "1e2", "0x1", "-", "", "five", "4 4", "2,0")]


def raw(v):
    """the Python value behind <<tag, n, how>>"""
    how = v[2] if len(v) > 2 else "int"
    if v[0] == "bad":
        if how.startswith("text:"):
            return how[5:]
        return {"ValueError": "abc", "TypeError": None}.get(how if how in ("ValueError", "TypeError") else v[1], [])
    n = v[1]
    return {"int": n, "float": n + (0.5 if n >= 0 else -0.5), "str": str(n), "padded": " %d " % n, "bool": bool(n)}[how]


def flag(v):
    return {"T": True, "F": False, "int": 1, "str": "True", "none": None, "zero": 0}[v[1]]


def do(o, op, a):
    """-> reply"""
    if op == "level":
        f = lambda: setattr(o, "exception_control_level", raw(a))
    elif op == "dbg":
        f = lambda: setattr(o, "debug_level", raw(a))
    elif op == "silent":
        f = lambda: setattr(o, "exception_control_silent_warnings", flag(a))
    elif op == "compact":
        f = lambda: setattr(o, "exception_control_compact_warnings", flag(a))
    elif op == "read":
        f = lambda: [o.exception_control_level, o.exception_control_silent_warnings,
                     o.exception_control_compact_warnings, o.debug_level]
    elif op == "event":
        if a[2] == [] and len(a) < 4:
            f = lambda: o.exception_control_event(a[0], EXC[a[1]])
        elif a[2] == []:
            f = lambda: o.exception_control_event(a[0], EXC[a[1]], None)
        else:
            f = lambda: o.exception_control_event(a[0], EXC[a[1]], a[2][0])
    elif op == "badevent":
        f = lambda: o.exception_control_event(a[0], {"int": 3, "str": "ValueError", "cls": int, "none": None}[a[1]], "m")
    elif op == "debug":
        f = lambda: o.debug_message(a[0], a[1], a[2], a[3] == "T") if len(a) < 5 else \
            o.debug_message(a[0], a[1], useprefix=a[3] == "T", end=a[2])
    caught = []

    def g():
        try:
            return f()
        except BaseException as ex:
            caught.append(ex)
            raise
    r, out = call(g)
    if r[0] == "err":
        args = getattr(caught[0], "args", ()) if caught else ()
        return ["err", r[1], [str(args[0])] if args else []]
    if op == "event":
        return ["ok", "warned" if out.strip() else "quiet"]
    if op == "debug":
        return ["ok", out]
    return ["ok", r[1] if op == "read" else "-"]


TYPES = ["SILENT", "WARNING", "MINOR", "SERIOUS", "CRITICAL", "CATASTROPHIC"]
MSGS = ["msg", "", "two\nlines", "{x} %s", "é λ", "  blanks  ", "tab\t"]


def rand_call(rng, debugging):
    x = rng.random()
    n = rng.choice([-3, -1, 0, 1, 2, 3, 4, 5, 6, 9] + INTS)
    if debugging and x < 0.5:
        m = rng.choice(MSGS + WORDS[:40])
        return "debug", [rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 9, -1] + INTS), m, rng.choice(["\n", "\n", "", " ", "--", "\n\n"]),
                         rng.choice("TTF")] + ([1] if rng.random() < 0.3 else [])
    if debugging and x < 0.75:
        if rng.random() < 0.1:
            return "dbg", ["bad", *rng.choice(BADINT)]
        return "dbg", ["int", n, rng.choice(["int", "int", "float", "str", "padded"])]
    if x < 0.65:
        t = rng.choice(TYPES)
        t = rng.choice([t, t, t.lower(), t.capitalize()])
        if rng.random() < 0.03:
            t = rng.choice(["NOPE", "", "WARN"])
        if rng.random() < 0.03:
            return "badevent", [t if t.upper() in TYPES else "MINOR", rng.choice(["int", "str", "cls", "none"])]
        msg = [] if rng.random() < 0.3 else [rng.choice(MSGS + WORDS[:20])]
        return "event", [t, rng.choice(sorted(EXC)), msg] + ([1] if rng.random() < 0.3 else [])
    if x < 0.8:
        if rng.random() < 0.12:
            return "level", ["bad", *rng.choice(BADINT)]
        if rng.random() < 0.1:
            k = rng.choice([0, 1])
            return "level", ["int", k, "bool"]
        return "level", ["int", n, rng.choice(["int", "int", "float", "str", "padded"])]
    if x < 0.95:
        v = ["bool", rng.choice("TF")] if rng.random() < 0.8 else ["bad", rng.choice(["int", "str", "none", "zero"])]
        return rng.choice(["silent", "compact"]), v
    return "read", []


def gen(profile, rng, shard, count):
    out = []
    for t in range(count):
        objs, steps = [], []
        for _ in range(rng.randint(1, 3)):
            objs.append(rng.choice(KINDS)())
            steps.append([len(objs), "new", [], ["ok", "-"]])
        for _ in range(rng.randint(3, 25)):
            i = rng.randint(1, len(objs))
            op, a = rand_call(rng, profile == "C14")
            steps.append([i, op, a, do(objs[i - 1], op, a)])
        for i in range(len(objs)):
            steps.append([i + 1, "read", [], do(objs[i], "read", [])])
        out.append({"id": "%s-%d-%d" % (profile, shard, t), "env": [], "steps": steps})
    return out


def replay():
    _, profile, seed, inp, out = sys.argv
    cases = json.load(open(inp, encoding="utf-8"))
    bad = []
    for c in cases:
        for K in KINDS:
            o, o2 = K(), K()
            for op, a in c["hist"]:
                do(o, op, a)
            r = do(o, c["call"][0], c["call"][1])
            r2 = do(o2, "read", [])
            e = c["r"]
            ok = e[0] == r[0]
            if ok and e[0] == "err":
                ok = (e[1] == "*" or e[1] in r[1]) and (e[2] == ["*"] or e[2] == r[2])
            elif ok:
                ok = e[1] == r[1]
            if not ok or r2 != c["other"]:
                bad.append({"case": c, "class": K.__name__, "recorded": [r, r2]})
    json.dump({"mismatches": bad[:20], "run": len(cases)}, open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    replay() if sys.argv[1] == "replay" else main(gen)
