"""Random scenarios for the keyword tools, recorded as traces."""
import glob
import os
import re
import shutil
import tempfile

from common import harvest, main
import kw_real
from kw_real import HOST, SAFEENV, KWWorld
import se_gen

REPO = os.environ.get("VERIF_REPO", "/repo")
WORDS, INTS = harvest(sorted(glob.glob(REPO + "/wip/*/*/*.py") + glob.glob(REPO + "/wip/*/*.py")))
WORDS = [x for x in WORDS if x and not set(x) & set(",=:%'\"`\\@") and x[0].isalnum()]
PLAIN = ["debug", "release", "static", "shared", "no-mpi", "mpi", "openmp", "serial", "cuda", "no-kokkos", "a", "b", "ab", "a-b",
         "one", "two", "three", "x86", "arm", "9.2", "v1.0", "opt1", "opt2", "DEBUG", "Release", "none", "no", "c++", "a.b", "x$"]


HARD = [False]     # scenarios in which most things are wrong (K09)


def odd(r, p):
    return r.random() < (max(p, 0.6) if HARD[0] else p)


def word(r, pool=PLAIN):
    return r.choice(pool) if r.random() < 0.9 else r.choice(WORDS)


def comment(r):
    return r.choice(["# note", "#", "#a", "  # see debug", "\t# x # y", "# SELECT_ONE", "#_"])


def lines(r, vals):
    """the text of an option with these values, laid out at random"""
    out = []
    for i, v in enumerate(vals):
        while r.random() < 0.12:
            out.append(r.choice(["", comment(r).strip(), "   "]))
        out.append(v + (r.choice(["", " "]) + comment(r) if r.random() < 0.2 else r.choice(["", "", "  "])))
    while r.random() < 0.15:
        out.append(r.choice(["", comment(r).strip()]))
    first = ""
    if out and r.random() < 0.5 and not out[0].strip().startswith("#"):
        first = out.pop(0)
    t = first + "".join("\n" + " " * r.randint(1, 6) + x for x in out)
    if r.random() < 0.05:
        t = t.replace("\n", '"\n', 1) if "\n" in t else '"%s"' % t
    return t


def value_lists(r, keys, pool, bad, many=6):
    """values for each key; sometimes with one of the mistakes that must be noticed"""
    left = r.sample(pool, len(pool))
    out = []
    for k in keys:
        n = r.randint(0, many)
        vs, left = left[:n], left[n:]
        out.append(vs)
    if (odd(r, bad) if bad else False) and out:
        vs = r.choice(out)
        x = r.random()
        if x < 0.3 and vs:
            vs.insert(r.randint(0, len(vs)), r.choice(vs))
        elif x < 0.6:
            vs.insert(r.randint(0, len(vs)), r.choice(["two words", "a_b", "_", "tab\tx", "SELECT_ONE x", "x_", "SELECT_ONES", "SELECT_MANY_", "SELECT_"]))
        elif x < 0.8:
            vs.insert(r.randint(0, len(vs)), r.choice(keys))
        elif any(out):
            vs.append(r.choice([v for o in out for v in o]))
    return out


def section(r, name, keys, vals, novalue=0.08, uses=()):
    t = ["[%s]" % name]
    for u in uses:
        t.append("use " + u)
    for k, vs in zip(keys, vals):
        if not vs and r.random() < novalue * 5:
            t.append(k + r.choice(["", " :", ": "]))
        else:
            t.append(k + r.choice([" : ", ":", " = ", ":  "]) + lines(r, vs))
    return "\n".join(t) + "\n\n"


# ------------------------------------------------------------------- K01
def k01(r, w):
    secs = r.sample(["sec", "other", "section-3", "S"], r.randint(1, 3))
    text, keys = "", {}
    for i, s in enumerate(secs):
        ks = list(dict.fromkeys(word(r, ["key1", "key2", "flag", "env-a", "envb", "k.x"] + PLAIN[:6]) for _ in range(r.randint(1, 4))))
        keys[s] = ks
        pool = list(dict.fromkeys([x for x in r.sample(PLAIN, r.randint(3, len(PLAIN))) if x not in ks] + r.sample(["SELECT_ONE", "SELECT_MANY", "-", ".", "^x", "x^y", "*", "(", "é"], 3)))
        vals = value_lists(r, ks, pool, 0.5, 7)
        if r.random() < 0.06:
            r.choice(vals).append('"' + r.choice(["  ", " ", "\t"]) + '"')
        text += section(r, s, ks, vals, uses=[secs[0]] if i and r.random() < 0.2 else [])
    if r.random() < 0.15:
        text += section(r, "DEFAULT", ["dkey"], [r.sample(PLAIN, 2)])
    w.file("f.ini", text)
    env = w.env()
    i = w.make("kw", "f.ini", how=r.randint(0, 2))
    allv = PLAIN + ["SELECT_ONE", "missing"]
    for _ in range(r.randint(2, 9)):
        s = r.choice(secs) if r.random() < 0.95 else "nosuch"
        if r.random() < 0.6:
            w.do(i, "values", s, r.choice(keys.get(s) or ["k"]) if r.random() < 0.95 else r.choice(["nokey", "dkey"]))
        else:
            line = [x for x in text.replace("#", "\n").split("\n") if x.strip()]
            v = r.choice(line).strip() if r.random() < 0.6 else r.choice(allv)
            w.do(i, "key", s, v)
    return env


# ------------------------------------------------------------------- K02
SYS = ["ats2", "rhel7", "van1", "cee-rhel7", "sys1", "sys", "machine-type-1", "machine-type-2", "ride", "tlcc2", "cts1", "white"]
HOSTBITS = ["stria", "mutrino", "white", "ride", "vortex", "ascic", "cee", "build", "ser", "host", "rhel7", "ats2"]


def hosts(r):
    b = r.choice(HOSTBITS)
    return r.choice([b, b + str(r.randint(0, 99)), b + "-login%d" % r.randint(1, 9), b + str(r.randint(1, 9)) + ".sandia.gov", "x" + b, "", b.upper(), b + ".srn"])


def pattern(r, host):
    x = r.random()
    bit = r.choice(HOSTBITS)
    if x < 0.3:
        return bit
    if x < 0.45 and host:
        i = r.randint(0, len(host) - 1)
        return host[i:r.randint(i + 1, len(host))] or "h"
    if True:    # (texts that are no regular expressions are left out: nothing is said about when they are noticed)
        # a pattern made of the host, with pieces generalised
        src = host if host and r.random() < 0.6 else bit
        out = []
        for c in src[:12]:
            y = r.random()
            if y < 0.6:
                out.append("\\." if c == "." else c)
            elif y < 0.7:
                out.append(".")
            elif y < 0.78:
                out.append(r.choice(["[a-z]", "[0-9]", "[a-z0-9]", "[^0-9]", "[%s]" % c if c.isalnum() else "\\d", "\\d", "\\w"]))
            elif y < 0.88:
                out.append((c if c.isalnum() else ".") + r.choice("*+?"))
            elif y < 0.93:
                out.append("(" + (c if c.isalnum() else ".") + "|" + r.choice(["x", "[0-9]+", "login"]) + ")" + r.choice(["", "", "*", "?"]))
            else:
                out.append(r.choice(["", ".*", "\\d+"]))
        p = "".join(out)
        if r.random() < 0.25:
            p = "^" + p
        if r.random() < 0.25:
            p += "$"
        if r.random() < 0.1:
            p = p + "|" + r.choice(HOSTBITS)
        try:
            re.compile(p)
        except re.error:
            return bit
        return p or "x"


def systems_file(r, names, host, hit=None):
    t = ""
    order = list(names)
    if r.random() < 0.15:
        order.insert(r.randint(0, len(order)), "DEFAULT")
    for s in order:
        t += "[%s]\n" % s
        pats = [pattern(r, host) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if hit:     # one system for this host, no broken patterns
            pats = [p for p in pats if r.random() < 0.03 or (s == hit or host.find(p.strip("^$")) < 0) and p.isalnum()]
        if s == hit:
            pats.append(host)
        for p in dict.fromkeys(p for p in pats if p and not p.startswith(("#", ";", "["))):
            if ":" in p or "=" in p:
                continue
            t += p + r.choice(["", "", " # a comment", "#c", "  # x:y" if False else " # z", "\t# t"]) + "\n"
        if r.random() < 0.05 and s != order[0]:
            t += "use %s\n" % order[0]
        t += "\n"
    return t


def case(r, s):
    return s if r.random() < 0.8 else r.choice([s.upper(), s.capitalize(), s.title()])


def build(r, pools, n=None):
    ws = [case(r, r.choice(r.choice(pools))) if r.random() < 0.1 else r.choice(r.choice(pools)) for _ in range(r.randint(0, 5) if n is None else n)]
    if r.random() < 0.04:
        ws.insert(r.randint(0, len(ws)), r.choice(WORDS))
    b = "_".join(ws)
    x = r.random()
    if x < 0.08 and ws:
        b = r.choice(["-", "x", ""]).join(ws)
    elif x < 0.13:
        b = r.choice(["_", "__"]) + b + r.choice(["", "_"])
    return b


def k02(r, w):
    names = r.sample(SYS, r.randint(1, 5))
    if r.random() < 0.2:
        names.append(r.choice(["UPPER", "Mixed1", "with_underscore"]))
    HOST[0] = hosts(r)
    w.file("sys.ini", systems_file(r, names, HOST[0]) if r.random() < 0.98 else "")
    env = w.env()
    for _ in range(r.choice([1, 1, 2, 3])):
        bn = build(r, [names, names, PLAIN, SYS])
        if r.random() < 0.15:
            bn = bn.upper()
        i = w.make("ds", bn, "sys.ini", "T" if r.random() < 0.4 else "F", how=r.randint(0, 2))
        for _ in range(r.randint(1, 5)):
            op = r.choice(["system", "system", "determine", "fromhost", "frombuild", "sysnames"])
            w.do(i, op, *([hosts(r)] if op == "fromhost" else []))
        if HARD[0] or r.random() < 0.3:
            w.do(i, "announce", "ds", r.choice([bn, r.choice(names)]), "sys.ini", r.choice("TF"), r.choice("TF"))
    return env


# ------------------------------------------------------------------- K03
def flags_file(r, bad=0.15):
    keys = list(dict.fromkeys(word(r, ["build-type", "lib-type", "use-mpi", "node-type", "arch", "pkgs", "FLAG", "fl.x", "pt"]) for _ in range(r.randint(1, 5))))
    pool = [x for x in r.sample(PLAIN, len(PLAIN)) if x not in keys]
    vals = value_lists(r, keys, pool, bad, r.choice([3, 6]))
    opts = [v for vs in vals for v in vs]
    for vs in vals:
        if not vs and r.random() < 0.85 and pool:
            v = "z%d" % len(opts)
            vs.append(v)
            opts.append(v)
        if r.random() < 1 - bad / 6:
            vs.insert(0, r.choice(["SELECT_ONE", "SELECT_MANY"]))
    t = section(r, "configure-flags", keys, vals)
    if r.random() < 0.15:
        t = section(r, "other", ["k"], [["debug"]]) + t
    if r.random() < 0.02:
        t = t.replace("configure-flags", "configure-flag")
    return t, keys, opts


def k03(r, w):
    t, keys, opts = flags_file(r)
    w.file("flags.ini", t)
    env = w.env()
    pools = [opts or PLAIN, opts or PLAIN, PLAIN, ["ats2", "gcc-9"], keys]
    near = [o + "x" for o in opts[:4]] + [o[:-1] for o in opts[:4] if len(o) > 1] + [o.upper() for o in opts[:3]]
    objs, last = [], {}
    for _ in range(r.choice([1, 1, 2])):
        b = build(r, pools)
        i = w.make("ck", b, "flags.ini", how=r.randint(0, 2))
        if i:
            objs.append(i)
            last[i] = b
    if not objs:
        return env
    for _ in range(r.randint(3, 12)):
        i = r.choice(objs)
        op = r.choice(["selected", "selstr", "selected", "selstr", "set_build", "set_build", "isdefault", "options", "alloptions", "flagitems", "build", "values", "key"])
        if op == "set_build":
            b = build(r, pools + ([near] if near else []))
            if r.random() < 0.3:    # hardly different from the name before
                b = last[i]
                b = r.choice([b.swapcase(), b.upper(), b.lower(), b + "_", "_" + b, "_".join(b.split("_")[::-1]), b[:-1], b[1:], b])
            last[i] = b
            w.do(i, op, b)
            if r.random() < 0.6:
                w.do(i, r.choice(["selected", "selstr"]))
        elif op == "isdefault":
            w.do(i, op, r.choice((opts or ["x"]) + PLAIN[:3]))
        elif op == "options":
            w.do(i, op, r.choice(keys + ["nosuch"] if r.random() < 0.1 else keys))
        elif op == "values":
            w.do(i, op, "configure-flags", r.choice(keys))
        elif op == "key":
            w.do(i, op, "configure-flags", r.choice((opts or ["x"]) + PLAIN[:2]))
        else:
            w.do(i, op)
    return env


# ------------------------------------------------------------------- K04
ENVS = ["gcc", "gcc-9", "gcc-9.2", "gcc-9.2-openmpi", "gcc_openmpi", "intel", "intel-18", "intel_18", "cuda", "cuda-10", "cuda-10.1-gcc", "c++", "c+", "env.a",
        "envxa", "x(y)", "arm", "arm-20.0", "a", "aa", "aaa", "env-1", "env-10", "ENV", "p$", "gcc_gcc", "openmpi"]
ALIASES = ["default", "gnu", "gnu-9", "gnu-9.2", "def", "intel-default", "cuda-gnu", "nvcc", "g.n", "gxn", "al", "ala", "alias-1", "alias-10", "openmpi-4",
           "arm-def", "x86", "n+", "DEFAULT-env"]


def envs_file(r, systems, bad=0.1):
    t, names, als = "", {}, {}
    for i, s in enumerate(systems):
        ks = list(dict.fromkeys(word(r, ENVS) for _ in range(r.randint(1, 6))))
        pool = [a for a in r.sample(ALIASES, len(ALIASES)) if a not in ks]
        vals = value_lists(r, ks, pool, bad, r.choice([1, 3]))
        names[s], als[s] = ks, [v for vs in vals for v in vs]
        t += section(r, s, ks, vals, uses=[systems[0]] if i and r.random() < 0.06 else [])
    return t, names, als


def env_build(r, names, als, systems):
    pools = [names, names, als or names, systems, PLAIN]
    return build(r, pools)


def k04(r, w):
    systems = r.sample(SYS, r.randint(1, 3))
    if r.random() < 0.15:
        systems.append(r.choice(["UPPER", "Mixed1", "VAN"]))
    t, names, als = envs_file(r, systems)
    w.file("envs.ini", t)
    env = w.env()
    for _ in range(r.choice([1, 2, 3, 4])):
        s = r.choice(systems) if r.random() < 0.97 else "nosystem"
        ns, al = names.get(s, ["gcc"]), als.get(s, [])
        i = w.make("ek", env_build(r, ns, al, systems), s, "envs.ini", how=r.randint(0, 2))
        if not i:
            continue
        if HARD[0] or r.random() < 0.3:
            w.do(i, "announce", "ek", r.choice([env_build(r, ns, al, systems), r.choice(ns + al)]), s, "envs.ini")
        for _ in range(r.randint(1, 4)):
            op = r.choice(["envname", "envname", "envname", "aliases", "envitems", "values", "key"])
            if op == "values":
                w.do(i, op, s, r.choice(ns))
            elif op == "key":
                w.do(i, op, s, r.choice(al + ["nosuch"]))
            else:
                w.do(i, op)
    return env


# ------------------------------------------------------------------- K05
class SpecGen(se_gen.Gen):
    """specifications all of whose sections are handled, mostly"""

    clean = True

    def option(self, secs, sec):
        for _ in range(20):
            k, v = self.raw_option(secs, sec)
            if not self.clean or k.startswith("use ") or k[:6] == "module" or (" " in k and v is not None and "assert" not in k):
                break
        return k, v

    def raw_option(self, secs, sec):
        r = self.r
        self.n += 1
        if r.random() < 0.1 and len(secs) > 1 and sec != secs[0]:
            return "use " + secs[0], None
        if r.random() < 0.02 and not self.clean:
            return "plain key %d" % self.n, "v"
        if r.random() < 0.12:
            return self.module()
        return self.envvar()


def specs_file(r, w, qualified):
    g = SpecGen(r, "S03")
    g.clean = r.random() < 0.8
    g.bins, g.exes = w.bins, [e for e in w.exe if not e.endswith("modulecmd")]
    secs = ["COMMON"] + qualified
    return g.file(secs)


def argv(r, opts, bn, pos):
    """command line: opts is a list of argument lists"""
    opts = r.sample(opts, len(opts))
    k = r.randint(0, len(opts))
    out = [x for o in opts[:k] for x in o]
    if bn or pos:
        out.append(bn)
    return out + [x for o in opts[k:] for x in o]


def relval(r, w, inidir, name):
    """the value that makes an .ini file in inidir name this file"""
    x = r.random()
    if x < 0.25:
        return str(w.root / name)
    v = os.path.relpath(name, inidir or ".")
    if x < 0.35:
        v = "./" + v
    elif x < 0.4:
        v = "../" * len([p for p in inidir.split("/") if p]) + name
    return v


def decoys(r, w, values, text):
    """files of the same names in the working directory, which are not the ones meant"""
    for v in values:
        p = os.path.normpath(os.path.join(str(w.cwd), v))
        if r.random() < 0.3 and not os.path.isabs(v) and p.startswith(str(w.root)) and not os.path.exists(p):
            w.file(os.path.relpath(p, w.root), text)


def configs(r, w, bad):
    """systems, environments and specifications, consistent with each other most of the time"""
    systems = r.sample(SYS, r.randint(1, 3))
    if r.random() < 0.15:
        systems.append(r.choice(["UPPER", "Mixed1", "VAN"]))
    HOST[0] = hosts(r)
    hit = r.choice(systems)
    w.file("etc/sys.ini", systems_file(r, systems, HOST[0] or "h", hit if HOST[0] and r.random() < 0.8 else None))
    w.file("etc/sys2.ini", systems_file(r, r.sample(systems, 1) + ["extra"], HOST[0] or "h", None))
    t, names, als = envs_file(r, systems, bad)
    w.file("etc/envs.ini", t)
    t2, names2, als2 = envs_file(r, systems, bad)
    w.file("envs2.ini", t2)
    qual = list(dict.fromkeys(s + "_" + n for s in systems for n in names[s] if r.random() < 0.97))
    w.file("deep/er/specs.ini", specs_file(r, w, qual))
    w.file("specs2.ini", specs_file(r, w, [s + "_" + n for s in systems for n in names2[s]]))
    return systems, names, als, names2, als2, hit




def loader_setup(r, w):
    w.add_bin("bin1", r.sample(se_gen.EXES, 2), modulecmd=True)
    w.add_bin("bin2", r.sample(se_gen.EXES, 1))
    systems, names, als, names2, als2, hit = configs(r, w, 0.03)
    w.set_vars(se_gen.rand_vars(r, w, True), record=False)
    inidir = r.choice(["", "etc", "a/b"])
    ini = (inidir + "/" if inidir else "") + "load-env.ini"
    vals = [relval(r, w, inidir, n) for n in ("etc/sys.ini", "etc/envs.ini", "deep/er/specs.ini")]
    decoys(r, w, vals, "[elsewhere]\n.*\n\n[decoy]\nenv:\n")
    keys = ["supported-systems", "supported-envs", "environment-specs"]
    ent = [k + " : " + v for k, v in zip(keys, vals)]
    x = r.random() * (0.2 if HARD[0] else 1)
    if x < 0.05:
        ent[r.randint(0, 2)] = "# gone"
    elif x < 0.1:
        k = r.randint(0, 2)
        ent[k] = keys[k] + r.choice(["", " :", ' : ""'])
    elif x < 0.13:
        k = r.randint(0, 2)
        ent[k] = keys[k] + " : nowhere/x.ini"
    head = "[load-env]" if r.random() < 0.98 else "[loadenv]"
    w.file(ini, ("# top\n" if r.random() < 0.5 else "") + head + "\n" + "\n".join(ent) + "\n")
    return ini, keys, systems, names, als, names2, als2, hit


def loader_args(r, w, S):
    ini, keys, systems, names, als, names2, als2, hit = S
    over = ["", "", ""]
    opts = []
    if r.random() < 0.25:
        over[0] = r.choice(["etc/sys2.ini", "etc/sys.ini"])
    if r.random() < 0.25:
        over[1] = "envs2.ini"
        if r.random() < 0.8:
            over[2] = "specs2.ini"
    if r.random() < 0.07:
        over[r.randint(0, 2)] = "nowhere.ini"
    for k, f in zip(keys, over):
        if f:
            opts.append(r.choice([["--%s=%s" % (k, w.root / f)], ["--" + k, str(w.root / f)], ["--" + k, os.path.relpath(w.root / f, w.cwd)]]))
    force = r.random() < 0.5
    if force:
        opts.append([r.choice(["-f", "--force"])])
    if r.random() < 0.2:
        opts.append(["--ci-mode"])
    out = ""
    if r.random() < 0.5:
        out = str(w.root / r.choice(["o.sh", "newdir/deep/o.sh"]))
        if r.random() < 0.5:
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(out, "w") as f:
                f.write("export OLD_CONTENT=1\n" * 500)
        opts.append([r.choice(["-o", "--output"]), out])
    N, A = (names2, als2) if over[1] else (names, als)
    s = r.choice(systems)

    def bn():
        if r.random() < 0.35:
            return build(r, [N[s], N[s], A[s] or N[s], PLAIN, systems] if r.random() < 0.5 else [N[s], A[s] or N[s], [s]])
        t = r.choice(systems) if force else hit
        ws = [r.choice(N[t] + A[t])] + r.sample(PLAIN, r.randint(0, 2)) + ([r.choice(N[t] + A[t])] if r.random() < 0.3 else [])
        if force or r.random() < 0.5:
            ws.append(t)
        return "_".join(r.sample(ws, len(ws)))
    return over, opts, force, out, bn


def k05(r, w):
    S = loader_setup(r, w)
    env = w.env()
    objs = {}
    for _ in range(r.choice([1, 1, 2])):
        over, opts, force, out, bn = loader_args(r, w, S)
        b0 = bn()
        i = w.make("le", S[0], b0, "T" if force else "F", *over, "T" if out else "F", argv=argv(r, opts, b0, r.random() < 0.5), how=r.randint(0, 2))
        if i:
            objs[i] = bn
            w.objs[i - 1].xout = out
    if not objs:
        return env
    for _ in range(r.randint(2, 10)):
        i = r.choice(list(objs))
        x = r.random()
        if x < 0.25:
            w.do(i, "set_build", objs[i]())
        elif x < 0.8:
            w.do(i, r.choice(["system", "envname", "stripped", "envname", "stripped", "build", "listenvs"]))
        else:
            if r.random() < 0.4:
                w.set_vars(se_gen.rand_vars(r, w, True))
            rep = w.do(i, "envname")
            if rep[0] == "ok" and not set(rep[1]) <= SAFEENV:
                continue
            if r.random() < 0.5:
                w.set_plan(se_gen.rand_plan(r, r.randint(0, 6), 0.05))
                w.do(i, "apply")
                w.set_plan([])
            else:
                w.do(i, "write")
    return env


# ------------------------------------------------------------------- K06
def config_setup(r, w):
    messy = HARD[0] and r.random() < 0.6    # only the names of the sections are wrong
    calm = messy or r.random() < (0.1 if HARD[0] else 0.5)     # nothing wrong with the files
    w.add_bin("bin1", [], modulecmd=True)
    systems = r.sample(SYS, r.randint(1, 2))
    if r.random() < 0.15:
        systems.append(r.choice(["UPPER", "Mixed1", "VAN"]))
    HOST[0] = hosts(r) or ("host1" if calm else "")
    hit = r.choice(systems)
    w.file("etc/sys.ini", systems_file(r, systems, HOST[0] or "h", hit if HOST[0] and (calm or r.random() < 0.8) else None))
    t, names, als = envs_file(r, systems, 0 if calm else 0.02)
    w.file("envs.ini", t)
    w.file("specs.ini", "[COMMON]\nenvvar-set A : 1\n")
    ft, keys, opts = flags_file(r, 0 if calm else 0.04)
    w.file("sub/flags.ini", ft)
    w.file("flags2.ini", flags_file(r, 0.04)[0])
    w.set_vars({"PATH": w.bins[0]}, record=False)
    # proper section names come from asking the code itself, wrong ones are mixed in
    pools = lambda s: [names[s], names[s], als[s] or names[s], opts or PLAIN, opts or PLAIN]
    secs = []
    try:
        ckp = kw_real.ConfigKeywordParser("", w.root / "sub/flags.ini")
        for _ in range(r.randint(0, 3)):
            s = r.choice(systems)
            ckp.build_name = "_".join(r.sample(opts, min(len(opts), r.randint(0, 1 if calm else 3))))
            secs.append(s + "_" + r.choice(names[s]) + kw_real.call(lambda: ckp.selected_options_str)[0][1])
    except BaseException:
        secs = []
    secs = [x if isinstance(x, str) else "x" for x in secs]
    if not calm and odd(r, 0.2):
        s = r.choice(systems)
        secs.append(s + "_" + build(r, pools(s), 3))
    if messy:
        for _ in range(r.randint(1, 4)):
            s = r.choice(systems)
            secs.insert(r.randint(0, len(secs)), "_".join([s, r.choice(names[s])] + r.sample(opts, min(len(opts), r.randint(0, 2)))))
    secs = list(dict.fromkeys(x for x in secs if "]" not in x and x != "DEFAULT"))
    def specs(names):
        names = list(names)
        for x in r.sample(["COMMON-1", "COMMON", "ATS2_X", "42", "DEFAULT"], r.randint(0, 2)):
            names.insert(r.randint(0, len(names)), x)
        if not calm and odd(r, 0.04):
            names.insert(r.randint(0, len(names)), r.choice(["Common", "SUPPORTt", "xy"]))
        return "".join("[%s]\nopt-set x\n\n" % x for x in names)
    w.file("config-specs.ini", specs(secs))
    w.file("more/specs2.ini", specs(r.sample(secs, len(secs) - 1) if secs else ["odd name"]))
    ini = r.choice(["gen-config.ini", "src/gen-config.ini"])
    d = os.path.dirname(ini)
    files = ["sub/flags.ini", "config-specs.ini", "etc/sys.ini", "envs.ini", "specs.ini"]
    gk = ["supported-config-flags", "config-specs", "supported-systems", "supported-envs", "environment-specs"]
    vals = [relval(r, w, d, f) for f in files]
    decoys(r, w, vals, "[configure-flags]\nf: SELECT_ONE\n  decoy\n\n[elsewhere]\n.*\n")
    ent = [k + " : " + v for k, v in zip(gk, vals)]
    x = 1 if calm else r.random() * (0.3 if HARD[0] else 1)
    k = r.randint(0, 4)
    if x < 0.04:
        ent[k] = "# gone"
    elif x < 0.08:
        ent[k] = gk[k] + r.choice(["", " :"])
    elif x < 0.12:
        ent[k] = gk[k] + " : nowhere.ini"
    t = "[gen-config]\n" + "\n".join(ent[:2]) + "\n" + ("[load-env]\n" if r.random() < 0.97 else "") + "\n".join(ent[2:]) + "\n"
    w.file(ini, t)
    if r.random() < 0.6:
        w.outs["out/f.cmake"] = r.choice(["old text\n" * 50, "old", ""])
        os.makedirs(w.root / "out")
        (w.root / "out/f.cmake").write_text(w.outs["out/f.cmake"])
    return ini, gk, systems, names, als, opts, secs, pools, hit, calm


def config_args(r, w, S):
    ini, gk, systems, names, als, opts, secs, pools, hit, calm = S
    force, yes = r.random() < 0.5, r.random() < 0.3
    s = r.choice(systems) if force or r.random() < 0.2 else hit
    bn = build(r, pools(s) + [[s]])
    if calm or r.random() < 0.6:
        ws = [r.choice(names[s] + als[s])] + r.sample(opts, min(len(opts), r.randint(0, 1 if calm else 3))) + ([s] if r.random() < 0.7 else [])
        bn = "_".join(r.sample(ws, len(ws)))
    if secs and r.random() < 0.3:
        bn = r.choice(secs)
    over = [""] * 5
    o = []
    if r.random() < 0.15:
        over[0] = "flags2.ini"
    if r.random() < 0.1:
        over[1] = r.choice(["config-specs.ini", "more/specs2.ini"])
    if r.random() < 0.1:
        over[2] = "etc/sys.ini"
    for kk, f in zip(gk, over):
        if f:
            o.append(["--" + kk, os.path.relpath(w.root / f, w.cwd) if r.random() < 0.3 else str(w.root / f)])
    frag = r.choice(["out/f.cmake", "out/f.cmake", "out/new/g.cmake", "out/new/g.cmake", "out/f.cmake/h.cmake" if r.random() < 0.5 else "out/new"])
    if force:
        o.append([r.choice(["-f", "--force"])])
    if yes:
        o.append([r.choice(["-y", "--yes"])])
    return bn, over, o, force, yes, frag


def k06(r, w):
    S = config_setup(r, w)
    env = w.env()
    objs = []
    for _ in range(r.choice([1, 1, 2])):
        bn, over, o, force, yes, frag = config_args(r, w, S)
        o.append(["--cmake-fragment", os.path.relpath(w.root / frag, w.cwd) if r.random() < 0.3 else str(w.root / frag)])
        i = w.make("gc", S[0], bn, "T" if force else "F", over, frag, "T" if yes else "F", argv=argv(r, o, bn, r.random() < 0.5), how=r.randint(0, 2))
        w.objs[i - 1].xfrag = w.root / frag
        objs.append(i)
    for _ in range(r.randint(2, 8)):
        i = r.choice(objs)
        op = r.choice(["complete", "validate", "complete", "validate", "flags", "listflags", "listconfigs", "fragment", "fragment", "leargs"])
        if op == "fragment":
            w.do(i, op, *answers(r))
            w.do(i, "outs")
        else:
            w.do(i, op)
    return env


# ------------------------------------------------------------------- K07
def k07(r, w):
    return (k07_load if r.random() < 0.5 else k07_config)(r, w)


def answers(r):
    return [r.choice(["q", "what", "1"]) for _ in range(r.randint(0, 2))] + [r.choice(["y", "n", "Y", "No", "yes", "nope", "yikes"])]


def k07_load(r, w):
    S = loader_setup(r, w)
    env = w.env()
    for _ in range(r.randint(1, 3)):
        over, opts, force, out, bn = loader_args(r, w, S)
        b0 = bn()
        lst, loc = r.random() < 0.2, ""
        block = str(w.root / "plain" / "o.sh")
        if out and r.random() < 0.2:
            (w.root / "plain").write_text("x")
            opts[[o[-1] for o in opts].index(out)][-1] = block
            out = block
        if lst:
            opts.append([r.choice(["-l", "--list-envs"])])
        if r.random() < 0.6:
            loc = str(w.root / "the-location")
            opts.append(["--load-matching-env-location", loc])
        i = w.make("lm", S[0], b0, "T" if force else "F", *over, "T" if lst else "F", argv=argv(r, opts, b0, r.random() < 0.5))
        w.objs[i - 1].xout, w.objs[i - 1].xloc, w.objs[i - 1].list = out, loc, lst
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.5:
                w.set_vars(se_gen.rand_vars(r, w, True))
            w.set_plan(se_gen.rand_plan(r, r.randint(0, 6), 0.05))
            if w.probe(i):
                w.do(i, "lemain", *(["blocked"] if out == block else []))
            w.set_plan([])
    return env


def k07_config(r, w):
    S = config_setup(r, w)
    env = w.env()
    (w.root / "sv").mkdir()
    for _ in range(r.randint(1, 3)):
        bn, over, o, force, yes, frag = config_args(r, w, S)
        modes = [r.random() < 0.25, r.random() < 0.2, r.random() < 0.25, r.random() < 0.4]
        save = "sv/" + r.choice(["args", "other"])
        o += [x for m, x in zip(modes, (["--list-config-flags"], [r.choice(["-l", "--list-configs"])], ["--save-load-env-args", str(w.root / save)],
                                        ["--cmake-fragment", str(w.root / frag)])) if m]
        i = w.make("gm", S[0], bn, "T" if force else "F", over, frag, "T" if yes else "F", ["T" if m else "F" for m in modes], save,
                   argv=argv(r, o, bn, r.random() < 0.5))
        w.do(i, "gcmain", *answers(r))
        w.do(i, "outs")
    return env


# ------------------------------------------------------------------- K09
def k09(r, w):
    HARD[0] = True
    try:
        return r.choice([k01, k02, k03, k03, k04, k04, k05, k06, k06])(r, w)
    finally:
        HARD[0] = False


PROFILES = {"K01": k01, "K02": k02, "K03": k03, "K04": k04, "K05": k05, "K06": k06, "K07": k07, "K09": k09}


def gen(profile, rng, shard, count):
    out = []
    for t in range(count):
        root = os.path.realpath(tempfile.mkdtemp(prefix="kw_"))
        try:
            w = KWWorld(root)
            HOST[0] = "nohost"
            env = PROFILES[profile](rng, w)
            out.append({"id": "%s-%d-%d" % (profile, shard, t), "env": env, "steps": w.steps})
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return out


if __name__ == "__main__":
    main(gen)
