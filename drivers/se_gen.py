"""Random scenarios for SetEnvironment, recorded as traces."""
import glob
import os
import re
import shutil
import tempfile

from common import harvest, main
from cpe_gen import q
from se_real import SEWorld

REPO = os.environ.get("VERIF_REPO", "/repo")
WORDS, INTS = harvest(sorted(glob.glob(REPO + "/wip/setenvironment/src/setenvironment/*.py")))
WORDS = [x for x in WORDS if not set(x) & set(",=:%") and not x.startswith(("#", ";", "["))]

WILD = ["A", "B", "C", "a", "AB"]
SAFE = ["P1", "P2", "LD_LIBRARY_PATH"]
ODDV = ["it's", 'say "hi" now', "back\\slash", "tail\\", "a b  c", "tick`x`", "é λ", "x;y", "# not a comment", "*", "?[a]", "!x",
        "a\tb", "~", "~/x", "-n", "a&b|c>d", "(p)", "{a,b}", "\\n", "'", '"', 'q"q', "\\\"", "$", "$$", "$5", "$(echo pwned)", "${}",
        "${x-y}", "cost $ 5", "%d", "{}", "{0}", "\\$A", "a=b", "x:y:z", ":", "::"]
PLAIN = ["v1", "v2", "/usr/lib", "/opt/x/bin", "word", "0", "1", "1st", "true", "a", "b", "ab", "x1", "/1", "10", "a.b", "v1v1", "lib"]
KNOWN = WILD + SAFE + ["UNSETVAR"]
EXES = ["tool", "tool2", "cc-x", "py.exe"]
ENVOPS = ["set", "set_if_empty", "append", "prepend", "unset", "remove_substr", "remove_path_entry", "find_in_path",
          "assert_not_empty"]
MODS = ["gcc", "gcc/9", "openmpi", "sems-env", "cmake", "git", "g", "GCC"]
VERS = ["1.2.3", "9.3.0", "", None, "gcc/9.3", "default", "x86"]


def spell(rng, op):
    return "".join(rng.choice("-_") if c == "_" else c for c in op)


def ref(rng, names):
    n = rng.choice(names)
    return rng.choice(["${%s}", "$%s", "${%s}"]) % n


def value(rng, kind, pool, bash):
    """text of a value; kind safe or wild"""
    if kind == "safe":
        n = rng.choice([1, 1, 1, 2, 3])
        v = ":".join(rng.choice(["/a", "/b", "/a/b", "x", "1", "/usr/lib", "1x", "lib", "/a/"]) for _ in range(n))
        if rng.random() < 0.2:
            v = v + ":" + ref(rng, SAFE + (["UNSETVAR"] if rng.random() < 0.2 else []))
        return v
    v = "".join(rng.choice([rng.choice(PLAIN), rng.choice(PLAIN + WORDS[:60]), rng.choice(ODDV), ref(rng, WILD + SAFE + ["UNSETVAR"] * 2),
                            rng.choice([":", "/", "-", " ", "_"])]) for _ in range(rng.randint(1, 4)))
    if rng.random() < 0.1:
        v = v + "\n" + rng.choice(PLAIN)
    if bash:    # names that bash itself gives a meaning
        v = re.sub(r"\$([A-Za-z_]\w*)", lambda m: m.group(0) if m.group(1) in KNOWN else "$ " + m.group(1), v)
    return v


class Gen:
    def __init__(self, rng, profile):
        self.r = rng
        self.p = profile
        self.n = 0

    def option(self, secs, sec):
        """(key, value text or None)"""
        r = self.r
        self.n += 1
        x = r.random()
        uses = 0.12 if self.p != "S01" else 0.25
        if x < uses:
            t = r.choice([s for s in secs if s != sec] or secs) if r.random() < 0.93 else r.choice(secs + ["MISSING"])
            return "use " + q(r, t), None
        if x < uses + (0.12 if self.p == "S01" else 0.06):
            if r.random() < 0.5 or self.p == "S03":
                return spell(r, "envvar_remove") + " " + r.choice(WILD + SAFE) + self.more(), r.choice([None, "", "ignored"])
            return spell(r, "module_remove") + " " + q(r, r.choice(MODS)) + self.more(), r.choice([None, "", "x"])
        pm = {"S07": 0.4, "S01": 0.35, "S02": 0.0, "S03": 0.1, "S04": 0.55}[self.p]
        if r.random() < pm:
            return self.module()
        if r.random() < 0.03:
            return "plain key %d" % self.n, "v"
        return self.envvar()

    def more(self):
        """an extra parameter keeps keys distinct"""
        return " n%d" % self.n if self.r.random() < 0.85 else ""

    def module(self):
        r = self.r
        op = r.choice(["load", "load", "unload", "swap", "use", "purge"])
        key = spell(r, "module_" + op)
        quiet = self.p == "S03"
        if op in ("load", "unload", "swap"):
            if r.random() < 0.97 or quiet:
                key += " " + q(r, r.choice(MODS)) + self.more()
            v = {"load": r.choice(VERS), "unload": r.choice([None, "", "x"]), "swap": r.choice(MODS)}[op]
            if op == "swap" and r.random() < 0.03 and not quiet:
                v = None
        elif op == "use":
            v = r.choice(["/modules/a", "/m", "/modules/b", "/p q"] if not quiet else ["/modules/a", "/m"])
            if r.random() < 0.04 and not quiet:
                v = None
            if r.random() < 0.6:
                key += " n%d" % self.n
        else:
            v = r.choice([None, "", "x"])
            if r.random() < 0.7:
                key += " n%d" % self.n
        return key, v

    def envvar(self):
        r = self.r
        op = r.choice(ENVOPS[:-1] + ["set", "append", "prepend"])
        if r.random() < 0.04:
            op = "assert_not_empty"
        bash = self.p == "S03"
        kind = r.choice(["safe", "wild"])
        if bash and op in ("remove_substr", "remove_path_entry"):
            kind = "safe"
        name = r.choice(SAFE if kind == "safe" else WILD)
        if r.random() < 0.05 and op in ("append", "prepend", "remove_path_entry"):
            name, v = "PATH", r.choice(self.bins)
        elif op == "find_in_path":
            name = r.choice(WILD)
            v = r.choice(EXES + ["nowhere", "tool"] + ([r.choice(self.exes)] if self.exes else []))
        elif op == "unset":
            v = r.choice([None, "", "ignored"])
        elif op == "assert_not_empty":
            v = r.choice([None, "", "the message", "%s is needed" % name if False else "needed"])
        elif op == "remove_substr":
            v = r.choice(["/a", "a", "x", "lib", "v1", "/"]) if kind == "safe" else r.choice(["v1", "a", " ", "\\", "é", "x", "'", ".", "*"])
        elif op == "remove_path_entry":
            v = r.choice(["/a", "x", "1", "/b", "/usr/lib", "/a/", "/a", "/a/b"]) if kind == "safe" else r.choice(PLAIN + ["y", "", "a b"])
        else:
            v = value(r, kind, None, bash)
        y = r.random()
        if op not in ("unset", "assert_not_empty"):
            if y < 0.04:
                v = ""
            elif y < 0.05:
                v = None
            elif y < 0.12 and "\n" not in v and v and not (bash and (kind == "safe" or op == "find_in_path")):
                v = r.choice(['"%s"', '" %s "', '"%s']) % v
        key = spell(r, "envvar_" + op)
        if r.random() < 0.99:
            key += " " + q(r, name) + self.more()
        return key, v

    def file(self, secs):
        out = []
        for s in secs:
            out.append("[%s]" % s)
            have = set()
            for _ in range(self.r.randint(1, 7 if self.p != "S01" else 9)):
                k, v = self.option(secs, s)
                if k in have:
                    continue
                have.add(k)
                if v is None:
                    out.append(k)
                else:
                    out.append(k + self.r.choice([" : ", ": ", ":", " = "]) + v.replace("%", "%%").replace("\n", "\n   "))
            out.append("")
        return "\n".join(out) + "\n"


def rand_vars(rng, w, bash):
    v = {"PATH": ":".join(w.bins + ([w.sysbin()] if bash else []))}
    for n in WILD:
        if rng.random() < 0.6:
            v[n] = rng.choice(["", "v1", "a", "x y", "v1:v1", "y:x:y", "a\\b", "it's", "v1v1", 'q"', "$B", "é", "l1\nl2"])
    for n in SAFE:
        if rng.random() < 0.6:
            v[n] = rng.choice(["", "/a", "/a:/b", "/a/:/b", "/a:/a/:x/", "/b:/a:/a", "x:/a", "1:/a:1", "/a:/usr/lib:/a", "lib", "1x:/b", "/a/b:/a", "x:x:x", ":/a", "/a:"])
    if rng.random() < 0.5:
        v["OTHER"] = rng.choice(["keep", "", "a:b"])
    if rng.random() < 0.3:
        v["M1"] = "old"
    return v


def rand_plan(rng, n, failing):
    out = []
    for _ in range(n):
        p = {"code": 0, "bad": "F", "emits": [], "ml": rng.choice(["", "", "T"]), "text": ""}
        for _ in range(rng.randint(0, 2)):
            p["emits"].append(rng.choice([["set", "M1", rng.choice(["loaded", "v2", "it's", ""])], ["set", "A", rng.choice(["frommod", "m:A"])],
                                          ["unset", "M1"], ["unset", "B"], ["set", "M2", "x"]]))
        if rng.random() < failing:
            k = rng.choice(["code", "bad", "badcode", "ml", "raise", "mlcode"])
            if k in ("code", "badcode", "mlcode"):
                p["code"] = rng.choice([1, 2, 3, 7, 255])
            if k in ("bad", "badcode"):
                p["bad"] = "T"
                p["text"] = rng.choice(["ERROR: x", "Module ERROR: Unable", "line\nERROR:103: y", "  ERROR:"])
            if k in ("ml", "mlcode"):
                p["ml"] = "F"
            if k == "raise":
                p["emits"].insert(rng.randint(0, len(p["emits"])), ["raise"])
        elif rng.random() < 0.3:
            p["text"] = rng.choice(["Loading gcc", "WARNING: old", "ERRORS 0", "note"])
        out.append(p)
    return out


def scenario(profile, rng, root, tid):
    w = SEWorld(root)
    g = Gen(rng, profile)
    bash = profile == "S03"
    w.add_bin("bin1", rng.sample(EXES, rng.randint(0, 3)), modulecmd=profile in ("S04", "S03") or rng.random() < 0.5)
    w.add_bin("bin2", rng.sample(EXES, rng.randint(0, 3)))
    g.bins, g.exes = w.bins, [e for e in w.exe if not e.endswith("modulecmd")]
    secs = rng.sample(["S1", "S2", "S3", "sec-4", "S 5"], rng.randint(1, 4))
    dflt = ["DEFAULT"] if rng.random() < 0.25 else []
    w.put("f1.ini", g.file(dflt + secs))
    files = ["f1.ini"]
    if rng.random() < (0.5 if profile == "S01" else 0.3):
        w.put("f2.ini", g.file(rng.sample(secs, 1) + (["S9"] if rng.random() < 0.5 else [])))
        files.append("f2.ini")
    ecl = rng.choice([None, None, 0, 1, 2, 3, 4, 5])
    if profile in ("S02", "S03") and rng.random() < 0.7:
        ecl = None
    w.set_vars(rand_vars(rng, w, bash), record=False)
    if profile == "S01" and rng.random() < 0.3:
        w.delims = ["=:", ":"]
    env = w.env()
    nobj = 2 if rng.random() < 0.25 else 1
    for _ in range(nobj):
        w.new([files[0]] if len(files) == 1 or rng.random() < 0.5 else files, ecl, how=rng.choice([0, 1, 2]))
    allsecs = dflt + secs + ["S9", "MISSING"]
    for _ in range(rng.randint(2, 6) if profile not in ("S01", "S07") else rng.randint(3, 12)):
        i = rng.randint(1, nobj)
        s = rng.choice(secs if rng.random() < 0.9 else allsecs)
        x = rng.random()
        if profile == "S01":
            op = rng.choice(["actions", "actions", "parse", "parse", "getitem", "has_section", "sections", "items_all", "set_paths",
                             "set_ecl", "assert_sec", "pretty", "script", "set_delims", "new", "keep"])
            if op == "parse":
                w.do(i, "parse", s, "T", "F" if rng.random() < 0.1 else "T")
                w.do(i, "actions", s)
            elif op in ("actions", "getitem", "has_section", "pretty"):
                w.do(i, op, s)
            elif op == "keep":
                w.do(i, op, s, rng.choice([0, 0, 1, 2]))
                w.do(i, "actions", s)
            elif op == "sections":
                w.do(i, op, rng.choice(["yes", "force", "no"]))
            elif op == "items_all":
                w.do(i, op)
            elif op == "set_paths":
                if rng.random() < 0.8:
                    w.do(i, op, *rng.choice([files, files[:1], files[-1:]]))
                    again = rng.random() < 0.5
                    for t in secs:
                        if again:
                            w.do(i, "parse", t, "T", "T")
                        w.do(i, "actions", t)
            elif op == "set_ecl":
                w.do(i, op, rng.randint(0, 5))
            elif op == "assert_sec":
                w.do(i, op, s, "T")
            elif op == "script":
                w.do(i, op, s, "python", "F", "T", "F", "text", "F")
            elif op == "set_delims" and len(w.delims) > 1:
                w.do(i, op, rng.choice(w.delims))
            elif op == "new" and nobj < 3:
                nobj += 1
                w.new([rng.choice(files)], ecl)
            continue
        if profile == "S07":
            if x < 0.15:
                w.set_vars(rand_vars(rng, w, bash))
            elif x < 0.2:
                w.do(i, "set_paths", *rng.choice([files, files[:1], files[-1:]]))
            elif x < 0.3:
                w.do(i, "parse", s, "T", "F" if rng.random() < 0.2 else "T")
            elif x < 0.4:
                w.do(i, "apply", s)
            elif x < 0.45:
                w.do(i, "keep", s, rng.choice([0, 1, 2]))
            elif x < 0.5:
                w.do(i, "actions", s)
            elif x < 0.7:
                pool = ["A", "B", "P", "1", "_", "PATH", "OTHER", "a", "", "LD_LIBRARY_PATH", "M1", "NOPE", "=", "^A", "."]
                w.do(i, "showvars", rng.choice("TFFF"), [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))], rng.choice("TF"))
            else:
                w.do(i, "pretty", s)
        elif profile == "S02":
            if x < 0.15:
                w.set_vars(rand_vars(rng, w, bash))
            if x < 0.08:
                w.do(i, "parse", s, "T", "T")
            w.do(i, "apply", s)
        elif profile == "S04":
            if x < 0.2:
                w.set_vars(rand_vars(rng, w, bash))
                if rng.random() < 0.15:
                    w.set_vars({"PATH": w.bins[1]})
            if x < 0.1:
                w.do(i, "set_ecl", rng.randint(0, 5))
            w.set_plan(rand_plan(rng, rng.randint(0, 8), 0.25))
            w.do(i, "apply", s)
        else:
            if x < 0.2:
                w.set_vars(rand_vars(rng, w, bash))
            if x < 0.1:
                w.do(i, "set_ecl", rng.randint(0, 5))
            interp = rng.choice(["bash", "python"]) if rng.random() < 0.95 else rng.choice(["sh", "", "Bash", "csh", "python3"])
            fl = rng.choice(["TTT", "TTT", "TTF", "FTT", "FTF", "TFT", "TFF", "FFT", "FFF"])
            w.do(i, "script", s, interp, *fl, rng.choice(["text", "file"]), "T" if rng.random() < 0.04 else "F")
            if rng.random() < 0.3:
                w.do(i, "actions", s)
            if rng.random() < 0.3:
                w.do(i, "apply", s)
    for i in range(nobj):
        if profile != "S04":
            for s in secs:
                w.do(i + 1, "actions", s)
    return {"id": "%s-%s" % (profile, tid), "env": env, "steps": w.steps}


def s05(rng, root, tid):
    w = SEWorld(root)
    w.add_bin("bin1", ["tool"], modulecmd=True)
    w.add_bin("bin2", ["tool"])
    w.set_vars(rand_vars(rng, w, False), record=False)
    env = w.env()
    w.put("f.ini", "[S]\nk = v\n")
    w.new(["f.ini"])
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.12:
            w.set_vars({"PATH": rng.choice([w.bins[1], "", w.bins[1] + ":" + w.bins[0]]), "A": "x"})
        w.set_plan(rand_plan(rng, rng.randint(0, 3), 0.45))
        for _ in range(rng.randint(1, 3)):
            cmd = [rng.choice(["load", "unload", "swap", "use", "purge", "list", "is-loaded"])]
            if rng.random() < 0.2:
                cmd += rng.choice([["gcc"], ["a", "b"]])
            words = ["gcc/9", "openmpi", "a b", " padded ", "/p q/r", "it's", "x\"y", "", "é", "-t", "*", "$A", "two  blanks", "tab\tx"]
            args = [rng.choice(words) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            w.do(1, "module", cmd, args, "T" if len(cmd) > 1 or rng.random() < 0.3 else "F")
    return {"id": "S05-%s" % tid, "env": env, "steps": w.steps}


def gen(profile, rng, shard, count):
    out = []
    for t in range(count):
        root = tempfile.mkdtemp(prefix="se_")
        try:
            tid = "%d-%d" % (shard, t)
            out.append(s05(rng, root, tid) if profile == "S05" else scenario(profile, rng, root, tid))
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return out


if __name__ == "__main__":
    main(gen)
