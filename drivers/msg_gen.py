"""Framed messages: random texts, and replay of the enumerated ones."""
import glob
import json
import os
import sys

from common import call, harvest, main

from keywordparser import FormattedMsg

REPO = os.environ.get("VERIF_REPO", "/repo")
WORDS, _ = harvest(sorted(glob.glob(REPO + "/wip/keywordparser/keywordparser/*.py")))
WORDS = [w for w in WORDS if w.isprintable()]
PARTS = ["a", "b c", "  two", "'quoted'", "- x", "  - x", "|", "+", "+==+", "=" * 78, "", "", " ", "\t", "ERROR:", "%s", "{kind}", "{}", "\\n", "é", "a  ",
         "x" * 90, "0", "|   |", "+" + "=" * 78 + "+"]


class Sub(FormattedMsg):
    pass


def do(o, op, a, style=0):
    def f():
        kw = {}
        if op == "msg":
            kind, extras = a[1], a[2]
        else:
            kind, extras = a[2], a[3]
        if kind:
            kw["kind"] = kind[0]
        if extras:
            kw["extras"] = extras[0]
        if op == "msg":
            if style % 3 == 1 and kind and extras:
                return o.get_formatted_msg(a[0], kind[0], extras[0])
            return o.get_formatted_msg(a[0], **kw)
        items = tuple(a[1]) if style % 2 else list(a[1])
        r = o.get_msg_for_list(a[0], items, **kw)
        return r if list(items) == a[1] else "the items were changed"
    return call(f)[0]


def text(rng, n=4):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, n])):
        out.append("".join(rng.choice(PARTS + WORDS[:20]) for _ in range(rng.randint(1, 3))))
    return "\n".join(out) + rng.choice(["", "", "", "\n", "\n\n", " \n"])


def gen(profile, rng, shard, count):
    out = []
    for t in range(count):
        objs, steps = [], []
        for _ in range(rng.randint(1, 2)):
            objs.append(rng.choice([FormattedMsg, Sub])())
            steps.append([len(objs), "new", [], ["ok", "-"]])
        for _ in range(rng.randint(2, 8)):
            i = rng.randint(1, len(objs))
            kind = rng.choice([[], [], ["INFO"], ["WARNING"], [""], ["E R"], [rng.choice(PARTS).strip()]])
            extras = rng.choice([[], [text(rng)]])
            if rng.random() < 0.5:
                op, a = "msg", [text(rng, 8), kind, extras]
            else:
                op, a = "list", [text(rng, 3), [text(rng, 2) if rng.random() < 0.3 else rng.choice(PARTS) for _ in range(rng.randint(0, 6))], kind, extras]
            steps.append([i, op, a, do(objs[i - 1], op, a, rng.randint(0, 5))])
        out.append({"id": "%s-%d-%d" % (profile, shard, t), "env": [], "steps": steps})
    return out


def replay():
    _, profile, seed, inp, out = sys.argv
    bad = []
    cases = json.load(open(inp, encoding="utf-8"))
    o = FormattedMsg()
    for k, c in enumerate(cases):
        r = do(o, *c["call"], style=k)
        if r != c["r"]:
            bad.append({"case": c, "recorded": r})
    json.dump({"mismatches": bad[:20], "run": len(cases)}, open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    replay() if sys.argv[1] == "replay" else main(gen)
