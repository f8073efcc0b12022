"""Random sessions with the shell wrappers, recorded as traces."""
import os
import shutil
import tempfile

from common import main
import kw_gen
from kw_gen import PLAIN, SYS, SAFEENV, argv, envs_file, flags_file, hosts, section, systems_file
from kw_real import HOST
import kw_real
import se_gen
from sh_real import ShWorld

LEKEYS = ["supported-systems", "supported-envs", "environment-specs"]
GCKEYS = ["supported-config-flags", "config-specs"] + LEKEYS
VALS = ["v1", "v2", "/opt/x", "a b", "0", "x:y", "${P1}/more", "$P1", "it's", "q'q \"z\"", "*"]


def until(f, good):
    while True:
        x = f()
        if good(x):
            return x


def ops(r, sec, secs, bad):
    out, n = [], 0
    for _ in range(r.randint(1, 6)):
        n += 1
        x = r.random()
        name = r.choice(["A", "B", "C", "P2", "NEWVAR"])
        if x < 0.12 and sec != secs[0]:
            out.append("use " + secs[0])
        elif x < 0.5:
            out.append("envvar-%s %s n%d : %s" % (r.choice(["set", "set", "append", "prepend", "set-if-empty"]), name, n, r.choice(VALS)))
        elif x < 0.6:
            out.append("envvar-unset %s n%d" % (name, n))
        elif x < 0.66:
            out.append("envvar-find-in-path %s n%d : %s" % (name, n, r.choice(["tool", "tool2", "nowhere"])))
        elif x < 0.7:
            out.append("envvar-prepend PATH n%d : /R/bin2" % n)
        elif x < 0.7 + bad:
            out.append("envvar-assert-not-empty %s n%d : needed" % (name, n))
        elif x < 0.7 + bad * 1.4:
            out.append("some thing %d : odd" % n)
        else:
            out.append(r.choice(["module-load gcc n%d : 9.3", "module-load cmake n%d", "module-unload git n%d", "module-purge n%d", "module-use n%d : /modules/a",
                                 "module-swap gcc n%d : intel"]) % n)
    return "[%s]\n" % sec + "\n".join(dict.fromkeys(out)) + "\n\n"


def specs(r, names, bad, root):
    secs = ["COMMON"] + names
    return "".join(ops(r, s, secs, bad) for s in secs).replace("/R/", root + "/")


def setup(r, w):
    w.add_bin("bin1", ["tool"], modulecmd=True)
    w.add_bin("bin2", ["tool2", "tool"])
    HOST[0] = hosts(r) or "host1"
    w.install(cmake=r.choice([0, 0, 3]))
    systems = r.sample(SYS, r.randint(1, 2))
    hit = r.choice(systems)
    ok = lambda x: all(set(n) <= SAFEENV for d in x[1:] for v in d.values() for n in v)
    et, names, als = until(lambda: envs_file(r, systems, 0.0), ok)
    w.file("etc/sys.ini", systems_file(r, systems, HOST[0], hit))
    w.file("envs.ini", et)
    qual = list(dict.fromkeys(s + "_" + n for s in systems for n in names[s] if r.random() < 0.95))
    bad = r.choice([0.02, 0.1])
    w.file("deep/specs.ini", specs(r, qual, bad, str(w.root)))
    w.file("with blank/specs2.ini", specs(r, qual, bad, str(w.root)))
    w.file("specs3.ini", specs(r, qual, bad, str(w.root)))
    rel = lambda d, n: str(w.root / n) if r.random() < 0.3 else os.path.relpath(n, d)
    ent = lambda d, ks, fs: "".join("%s : %s\n" % (k, rel(d, f)) for k, f in zip(ks, fs))
    files = ["etc/sys.ini", "envs.ini", "deep/specs.ini"]
    w.file("le/loadenv/load-env.ini", "[load-env]\n" + ent("le/loadenv", LEKEYS if r.random() < 0.97 else LEKEYS[:2], files))
    w.file("decoy.ini", "[elsewhere]\n.*\n\n[decoy]\nenv:\n")
    w.file("gc/LoadEnv/loadenv/load-env.ini", "[load-env]\n" + ent("gc/LoadEnv/loadenv", LEKEYS, ["decoy.ini"] * 3))
    ft, keys, opts = until(lambda: flags_file(r, 0), lambda x: all(set(o) <= SAFEENV for o in x[1] + x[2]))
    w.file("flags.ini", ft)
    # section names of complete configurations, as the code itself gives them
    secs = []
    try:
        ckp = kw_real.ConfigKeywordParser("", w.root / "flags.ini")
        for _ in range(r.randint(0, 3)):
            s = r.choice(systems)
            ckp.build_name = "_".join(r.sample(opts, min(len(opts), r.randint(0, 1))))
            secs.append(s + "_" + r.choice(names[s]) + kw_real.call(lambda: ckp.selected_options_str)[0][1])
    except BaseException:
        secs = []
    secs = [x for x in secs if isinstance(x, str)]
    if r.random() < 0.06:
        secs.append("xy")
    w.file("config-specs.ini", "".join("[%s]\nopt-set x\n\n" % x for x in dict.fromkeys(secs)))
    w.file("gc/src/gen-config.ini", "[gen-config]\n" + ent("gc/src", GCKEYS[:2], ["flags.ini", "config-specs.ini"]) +
           "[load-env]\n" + ent("gc/src", LEKEYS, files))
    v = se_gen.rand_vars(r, w, False)
    v = {k: x for k, x in v.items() if "\n" not in x and "\\" not in x}
    v.update({"PATH": ":".join(w.bins + [str(w.root / "sysbin"), "/usr/bin", "/bin"]), "HOME": str(w.root / "home"), "USER": kw_real.USER[0], "P1": "/p1"})
    if r.random() < 0.12:
        v["LOAD_ENV_INTERACTIVE_MODE"] = r.choice(["True", "1", ""])
    w.set_vars(v, record=False)
    return systems, names, als, hit, opts, secs


def k08(r, w):
    systems, names, als, hit, opts, secs = setup(r, w)
    env = w.env()
    outs = 0
    for _ in range(r.randint(1, 4)):
        tool = r.choice(["load", "load", "load", "config"])
        ci = r.random() < 0.7
        force = r.random() < 0.4
        t = r.choice(systems) if force else hit
        ws = [r.choice(names[t] + als[t])] + r.sample([p for p in PLAIN if set(p) <= SAFEENV], r.choice([0, 0, 1])) * (tool == "load")
        if tool == "config":
            ws += r.sample(opts, min(len(opts), r.choice([0, 1])))
        if force or r.random() < 0.4:
            ws.append(t)
        bn = "_".join(r.sample(ws, len(ws)))
        if tool == "config" and secs and r.random() < 0.4:
            bn = r.choice(secs)
        if r.random() < 0.08:
            bn = r.choice(["nothing", "zzz_" + r.choice(systems)])
        o = [["--force"]] if force else []
        if ci:
            o.append(["--ci-mode"])
        how = "bad" if r.random() < 0.04 else "none" if r.random() < 0.04 else ""
        if how == "bad":
            o.append(["--no-such-option"])
        w.set_plan(se_gen.rand_plan(r, r.randint(0, 3), 0.1) if r.random() < 0.5 else [])
        again = [] if ci or r.random() < 0.5 else [r.choice(names[hit])]
        if tool == "load":
            over = ["", "", ""]
            if r.random() < 0.3:
                over[2] = r.choice(["with blank/specs2.ini", "specs3.ini", "nowhere.ini"])
                o.append(["--environment-specs", str(w.root / over[2])])
            if r.random() < 0.15:
                o.append(["--output", str(w.root / "outdir/o.sh")])
            lst = r.random() < 0.08
            if lst:
                o.append(["--list-envs"])
            a = argv(r, o, bn, True)
            i = w.make("lm", "le/loadenv/load-env.ini", bn, "T" if force else "F", *over, "T" if lst else "F", argv=a)
            src = "F"
        else:
            modes = [r.random() < 0.05, False, False, r.random() < 0.4]
            over = [""] * 5
            if r.random() < 0.3:
                over[4] = "specs3.ini"
                o.append(["--environment-specs", str(w.root / "specs3.ini")])
            outs += 1
            frag = "out/f%d.cmake" % outs
            if modes[0]:
                o.append(["--list-config-flags"])
            if modes[3]:
                o.append(["--cmake-fragment", str(w.root / frag)])
            a = argv(r, o, bn, True)
            src = "T" if r.random() < (0.3 if modes[3] else 0.9) else "F"
            if src == "T":
                a = a + [str(w.root / "srcdir")]
            i = w.make("gm", "gc/src/gen-config.ini", bn, "T" if force else "F", over, frag, "F", ["T" if m else "F" for m in modes], "sv/args", argv=a)
        rep = w.source(i, tool, [] if how == "none" else a, "T" if ci else "F", src, again, how, "gc/LoadEnv/loadenv/load-env.ini")
        w.set_plan([])
        if rep[0] == "exited":
            break
        if tool == "config":
            w.do(i, "outs")
    return env


def gen(profile, rng, shard, count):
    out = []
    for t in range(count):
        root = os.path.realpath(tempfile.mkdtemp(prefix="sh_"))
        w = ShWorld(root)
        w.shell = None
        try:
            env = k08(rng, w)
            out.append({"id": "%s-%d-%d" % (profile, shard, t), "env": env, "steps": w.steps})
        finally:
            w.stop()
            shutil.rmtree(root, ignore_errors=True)
    return out


if __name__ == "__main__":
    main(gen)
