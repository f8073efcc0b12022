"""The recorded findings of SetEnvironment: does each still show, and in
exactly the recorded form?  -> {id: "ideal" | "known" | other}"""
import json
import os
import sys
import tempfile
import shutil

from se_real import SEWorld


def bash(ini, before, name):
    """value of `name` after the generated bash script (or None), and whether it failed"""
    root = tempfile.mkdtemp(prefix="sef_")
    try:
        w = SEWorld(root)
        w.put("f.ini", ini)
        w.set_vars(dict(before, PATH=w.sysbin()), record=False)
        w.new(["f.ini"])
        r = w.do(1, "script", "S", "bash", "T", "T", "T", "text", "F")
        if r[0] != "ok":
            return [r]
        return [dict(map(tuple, r[1]["vars"])).get(name), r[1]["failed"]]
    finally:
        shutil.rmtree(root, ignore_errors=True)


def find(executable):
    root = tempfile.mkdtemp(prefix="sef_")
    try:
        w = SEWorld(root)
        w.put("f.ini", "[S]\nenvvar-find-in-path A : data\n")
        d = w.root / "bin1"
        d.mkdir()
        (d / "data").write_text("not a program\n")
        w.set_vars({"PATH": str(d)}, record=False)
        w.new(["f.ini"])
        r = w.do(1, "apply", "S")
        if r[0] != "ok":
            return [r]
        return [dict(map(tuple, r[2])).get("A").replace(str(d), "DIR")]
    finally:
        shutil.rmtree(root, ignore_errors=True)


CASES = {
    "S03": {
        "KF-S03-1": [("[S]\nenvvar-remove-path-entry P1 : /a\n", {"P1": "/a:/b"}, "P1", ["/b", "F"], [":/b:", "F"]),
                     ("[S]\nenvvar-remove-path-entry P1 : x\n", {"P1": "x:x:x"}, "P1", ["", "F"], [":x:", "F"])],
        "KF-S03-2": [("[S]\nenvvar-remove-substr P1 : a.b\n", {"P1": "axb"}, "P1", ["axb", "F"], ["", "F"]),
                     ("[S]\nenvvar-remove-substr P1 : z\n", {"P1": "a   b"}, "P1", ["a   b", "F"], ["a", "F"]),
                     ("[S]\nenvvar-remove-substr P1 : z\n", {}, "P1", [None, "F"], ["", "F"])],
        "KF-S03-3": [("[S]\nenvvar-append P1 :\nenvvar-set A : 1\n", {"P1": "x"}, "A", ["1", "F"], [None, "T"])],
        "KF-S03-4": [("[S]\nenvvar-set A : x$UNSETVAR\n", {}, "A", ["x$UNSETVAR", "F"], ["x", "F"])],
    },
}


def main():
    _, profile, seed, inp, out = sys.argv
    res = {}
    for k, cases in CASES.get(profile, {}).items():
        for ini, before, name, ideal, known in cases:
            got = bash(ini, before, name)
            v = "ideal" if got == ideal else "known" if got == known else "other: %r" % got
            if res.get(k, "ideal") in ("ideal",) or v.startswith("other"):
                res[k] = v
    if profile == "S02":
        got = find(False)
        res["KF-S02-1"] = "ideal" if got == [""] else "known" if got == ["DIR/data"] else "other: %r" % got
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
