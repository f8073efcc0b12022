"""Typed properties: random histories over random declarations, and replay."""
import glob
import json
import os
import sys

from common import Boom, call, harvest, main

from configparserenhanced.HandlerParameters import HandlerParameters
from configparserenhanced.TypedProperty import typed_property

REPO = os.environ.get("VERIF_REPO", "/repo")
WORDS, INTS = harvest(sorted(glob.glob(REPO + "/src/configparserenhanced/*.py")))

TYPES = {"int": int, "str": str, "list": list, "tuple": tuple, "dict": dict, "float": float, "bool": bool, "none": type(None)}


def item(x):
    return "<None>" if x is None else x


def enc(v):
    if v is None:
        return ["none", ""]
    if isinstance(v, bool):
        return ["bool", str(v)]
    if isinstance(v, int):
        return ["int", v]
    if isinstance(v, float):
        return ["float", int(v)] if v - int(v) == 0.5 else ["strange", repr(v)]
    if isinstance(v, str):
        return ["str", v]
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
        return ["nest", [item(x) for x in v[0]]]
    if isinstance(v, list):
        return ["list", [item(x) for x in v]]
    if isinstance(v, tuple):
        return ["tuple", [item(x) for x in v]]
    if isinstance(v, dict):
        return ["dict", [item(x) for x in v]]
    return ["strange", type(v).__name__]


def dec(v):
    t, p = v
    if t == "none":
        return None
    if t == "bool":
        return p == "True"
    if t == "float":
        return p + 0.5
    if t == "list":
        return list(p)
    if t == "nest":
        return [list(p)]
    if t == "tuple":
        return tuple(None if x == "<None>" else x for x in p)
    if t == "dict":
        return {x: 1 for x in p}
    return p


def boom(v):
    raise Boom("boom")


def upper(v):
    return v.upper()


def double(v):
    return v * 2


TRANS = {"": None, "upper": upper, "double": double, "tostr": str, "boom": boom, "uncallable": 7}


def valid(name, style):
    if name == "truthy":
        return [lambda v: v, bool, lambda v: 1 if v else 0][style % 3]
    if name == "pos":
        return [lambda v: v > 0, lambda v: "yes" if v > 0 else ""][style % 2]
    if name == "len2":
        return [lambda v: len(v) == 2, lambda v: 1 if len(v) == 2 else 0][style % 2]
    if name == "never":
        return [lambda v: False, lambda v: None, lambda v: 0, lambda v: ""][style % 4]
    return {"": None, "boom": boom, "uncallable": "nope"}[name]


def declare(name, d, style=0):
    ty = tuple(TYPES[t] for t in d["types"])
    if len(ty) == 1 and style % 2:
        ty = ty[0]
    kw = {}
    if d["dflt"]:
        kw["default"] = dec(d["dflt"][0])
    if d["factory"]:
        f = d["factory"][0]
        kw["default_factory"] = lambda: dec(f)
    if d["req"] or style % 3:
        kw["req_assign_before_use"] = d["req"]
    if d["conv"]:
        kw["internal_type"] = TYPES[d["conv"]]
    if d["valid"]:
        kw["validator"] = valid(d["valid"], style)
    if d["trans"]:
        kw["transform"] = TRANS[d["trans"]]
    return typed_property(name, ty, **kw)


def do(o, names, op, a):
    n = names[a[0] - 1]

    def f():
        if op == "get":
            return enc(getattr(o, n))
        if op == "set":
            return setattr(o, n, dec(a[1]))
        if op == "del":
            return delattr(o, n)
        v = getattr(o, n)
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
            v[0].append(a[1])
        elif isinstance(v, list):
            v.append(a[1])
        elif isinstance(v, dict):
            v.setdefault(a[1], 1)
        else:
            return "immutable"
    r, _ = call(f)
    if r[0] == "ok" and r[1] is None:
        r[1] = "-"
    return r


NAMES = ["alpha", "beta", "value", "x", "data_shared", "_q", "set", "name"]
STR = ["", "a", "ab", "7", " 12 ", "abc", "x y", "0", "True", "None", "Ab9"]


def rand_value(rng, d, types=None):
    t = rng.choice(types or ["int", "str", "str", "list", "tuple", "bool", "none", "dict", "float"])
    if d["trans"] == "double" and t == "float" or t == "dict" and (d["conv"] == "str" or d["trans"] == "tostr"):
        t = "int"
    ws = ["p", "q", "rr", "", "7"] + WORDS[:10]
    if t == "int":
        return [t, rng.choice([0, 1, 2, 3, 10, 255, -1, -7] + INTS)]
    if t == "float":
        return [t, rng.choice([0, 1, 4])]
    if t == "bool":
        return [t, rng.choice(["True", "False"])]
    if t == "none":
        return [t, ""]
    if t == "str":
        return [t, rng.choice(STR + WORDS[:40])]
    k = rng.choice([0, 1, 2, 2, 3])
    if t == "list" and rng.random() < 0.35 and d["conv"] != "str" and d["trans"] not in ("double", "tostr"):
        t = "nest"
    return [t, rng.sample(ws, k)]


def rand_decl(rng):
    d = {"types": rng.sample(["int", "str", "list", "tuple", "dict", "bool", "float", "none"], rng.randint(1, 3)),
         "req": rng.random() < 0.3, "conv": rng.choice(["", "", "int", "str", "list"]),
         "trans": rng.choice(["", "", "", "upper", "double", "tostr"]) if rng.random() < 0.95 else rng.choice(["boom", "uncallable"]),
         "valid": rng.choice(["", "", "", "truthy", "pos", "len2"]) if rng.random() < 0.95 else rng.choice(["never", "boom", "uncallable"]),
         "dflt": [], "factory": []}
    if rng.random() < 0.5:
        d["dflt"] = [rand_value(rng, d)]
    if rng.random() < 0.4:
        d["factory"] = [rand_value(rng, d)]
    return d


def _d(types, dflt, conv="", v=""):
    return {"types": types, "req": False, "conv": conv, "trans": "", "valid": v, "dflt": [dflt], "factory": []}


HP = [("section_root", _d(["str"], ["none", ""])), ("raw_option", _d(["tuple"], ["tuple", ["<None>", "<None>"]], v="len2")),
      ("op", _d(["str"], ["str", ""])), ("params", _d(["list", "tuple"], ["list", []], conv="list")),
      ("value", _d(["str", "none"], ["str", ""])), ("data_shared", _d(["dict"], ["dict", []])),
      ("data_internal", _d(["dict"], ["dict", []])), ("handler_name", _d(["str"], ["str", ""]))]


def gen(profile, rng, shard, count):
    out = []
    for t in range(count):
        if rng.random() < 0.12:
            names, decls = [n for n, _ in HP], [d for _, d in HP]
            cls, sub = HandlerParameters, type("Sub", (HandlerParameters,), {})
        else:
            k = rng.randint(1, 3)
            names, decls = rng.sample(NAMES, k), [rand_decl(rng) for _ in range(k)]
            cls = type("Base", (), {n: declare(n, d, rng.randint(0, 11)) for n, d in zip(names, decls)})
            sub = type("Sub", (cls,), {})
        objs, steps = [], []
        for _ in range(rng.randint(1, 3)):
            objs.append(rng.choice([cls, cls, sub])())
            steps.append([len(objs), "new", [], ["ok", "-"]])
        for _ in range(rng.randint(3, 22)):
            i, p = rng.randint(1, len(objs)), rng.randint(1, len(names))
            d = decls[p - 1]
            x = rng.random()
            if x < 0.4:
                op, a = "set", [p, rand_value(rng, d, d["types"] if rng.random() < 0.7 else None)]
            elif x < 0.75:
                op, a = "get", [p]
            elif x < 0.92:
                op, a = "mutate", [p, rng.choice(["zz", "k", "p"])]
            else:
                op, a = "del", [p]
            steps.append([i, op, a, do(objs[i - 1], names, op, a)])
        for i in range(len(objs)):
            for p in range(len(names)):
                steps.append([i + 1, "get", [p + 1], do(objs[i], names, "get", [p + 1])])
        out.append({"id": "%s-%d-%d" % (profile, shard, t), "env": decls, "steps": steps})
    return out


def same(e, r):
    if e[0] != r[0]:
        return False
    return (e[1] == "*" or e[1] in r[1]) if e[0] == "err" else e[1] == r[1]


def replay():
    _, profile, seed, inp, out = sys.argv
    cases = json.load(open(inp, encoding="utf-8"))
    bad = []
    for k, c in enumerate(cases):
        cls = type("K", (), {"p": declare("p", c["decl"], k)})
        o, o2 = cls(), cls()
        for op, a in c["hist"]:
            do(o, ["p"], op, a)
        r = do(o, ["p"], *c["call"])
        after, other = do(o, ["p"], "get", [1]), do(o2, ["p"], "get", [1])
        if not (same(c["r"], r) and same(c["after"], after) and same(c["other"], other)):
            bad.append({"case": c, "recorded": [r, after, other]})
    json.dump({"mismatches": bad[:20], "run": len(cases)}, open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    replay() if sys.argv[1] == "replay" else main(gen)
