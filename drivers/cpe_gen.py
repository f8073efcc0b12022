"""Random scenarios on the real ConfigParserEnhanced, recorded as traces."""
import glob
import os
import shutil
import sys
import tempfile

from common import harvest, main
import cpe_real
from cpe_real import World

REPO = os.environ.get("VERIF_REPO", "/repo")
WORDS, INTS = harvest(sorted(glob.glob(REPO + "/src/configparserenhanced/*.py")))
WORDS = [w for w in WORDS if not set(w) & set(",") and w not in ("CONFIGPARSERENHANCED_COMMON",)]
BADOP = ("initialize", "finalize")

PLAIN = ["A", "B", "C", "D", "E", "F", "G", "H1", "SEC-I", "sec_j", "a", "b", "use", "DEFAULTS", "default", "Жλ"]
ODD = ["SEC A", "my sec", "x.y", "p/q", "a#b", "it's", "b]c", "[d", "q\"t", "back\\slash", "100%", "%(k1)s", "-dash-",
       "None", "0", "True", ";semi", "tab\tx", " A", "A ", "B ", "  C  ", " B"]
OPS = ["op_a", "op_b", "do_it", "x1", "envvar_set", "load", "Op_A", "z", "very_long_operation_name_42", "up__date", "é1",
       "initialize_all", "finalizer", "re_initialize"]
KEYS = ["k1", "k2", "k3", "key-1", "key_1", "Key1", "KEY1", "opt.name", "path/x", "some key", "usex", "use_", "-use",
        "Use", "key 1", "k1 x", "a+b", "k@v", "__x", "λ", "k,1", "(p)", "$x", "k1 k2 k3", "{y}", "op", "handler",
        "generic", "DEFAULT", "opt.name 'a b'", "x! y"]
VALUES = ["v1", "v2", "v 3", "true", "0", "a=b", "a:b", "x;y", "x # y", "é λ", "it's", "C:\\dir\\f", "a,b", "$HOME/${X}",
          "{}", "None", "  padded", "`tick`", "-", "--flag=1", "a\tb", "use A", "[A]", "k1"]


def q(rng, s):
    """one way to write s as a shell word"""
    safe = s and all(c.isalnum() or c in "_-./+@," for c in s)
    forms = []
    if safe:
        forms += [s, s, s]
    if "'" not in s:
        forms.append("'" + s + "'")
    if not set(s) & set("\"\\"):
        forms.append('"' + s + '"')
    if "\n" not in s:
        forms.append("".join("\\" + c if not (c.isalnum() or c in "_-") else c for c in s) or "''")
    return rng.choice(forms)


class G:
    def __init__(self, rng, **kw):
        self.r = rng
        self.p = dict(nsec=(2, 6), nopt=(0, 5), use=0.4, op=0.25, odd=0.2, cyc=0.3, dflt=0.4, multi=0.1, pct=0.1,
                      noval=0.15, quoted=0.1, harvest=0.1, missing=0.03, weird=0.05, nh=(0, 4), rv=0.0, raises=0.0,
                      both=0.0, priv=0.3, nodeco=0.2, act="log", baduse=0.0, vandal=0.0, edge=0.2, large=0.01)
        self.p.update(kw)

    def chance(self, name):
        return self.r.random() < self.p[name]

    def n(self, name):
        return self.r.randint(*self.p[name])

    # -- names --------------------------------------------------------------
    def secnames(self):
        r = self.r
        n = self.n("nsec")
        out = []
        while len(out) < n:
            if self.chance("harvest") and WORDS:
                s = r.choice(WORDS)
            elif self.chance("odd"):
                s = r.choice(ODD)
            else:
                s = r.choice(PLAIN) if n < 12 else "N%d" % r.randint(0, 4 * n)
            if s not in out and s != "DEFAULT":
                out.append(s)
        if r.random() < 0.12:
            # a name that differs from another one by a blank only
            s = r.choice(out)
            s = r.choice([s + " ", " " + s])
            if s not in out:
                out.append(s)
        return out

    def handlers(self):
        r = self.r
        out, have = [], set()
        for _ in range(self.n("nh")):
            op = r.choice(OPS) if not (self.chance("harvest") and WORDS) else r.choice(WORDS).replace("-", "_")
            if op in have or op in BADOP or op == "use" or not ("h" + op).isidentifier():
                continue
            have.add(op)
            vis = "priv" if self.chance("priv") else "pub"
            if self.chance("both"):
                vis = "both"
            deco = "" if self.chance("nodeco") else "d"
            act = "raise" if self.chance("raises") else "vandal" if self.chance("vandal") else \
                r.choice([self.p["act"], self.p["act"], "none"])
            rv = "0"
            if self.chance("rv"):
                rv = r.choice(["0", "1", "2", "5", "9", "10", "11", "12", "99", "255", "x", "x1", "x2", "x3", "True",
                               "False"] + [str(i) for i in INTS])
            out.append([op, vis, deco, act, rv])
        if self.p["both"] > 0 and r.random() < self.p["both"] / 3:
            out.append(["use", "both", "d", "log", "0"])
        for e in ("initialize", "finalize"):
            if self.chance("edge"):
                act = "raise" if self.chance("raises") else r.choice(["log", "none"])
                rv = "0"
                if self.chance("rv"):
                    rv = r.choice(["0", "1", "10", "11", "x", "True"])
                out.append([e, "pub", "d", act, rv])
        return out

    # -- options ------------------------------------------------------------
    def value(self, keys):
        r = self.r
        if self.chance("noval"):
            return r.choice([None, ""])
        if self.chance("harvest") and WORDS:
            return r.choice(WORDS)
        v = r.choice(VALUES)
        if r.random() < 0.15:
            c = r.choice(":=;#,.'-_/\\[](){}<>|&*?!@~^+`$")
            v = v.strip() + r.choice(["", " "]) + c if r.random() < 0.6 else c + r.choice(["", " "]) + v.strip()
        if self.chance("large"):
            v = r.choice([" ", "", ":", ", "]).join(r.choice(VALUES).strip() for _ in range(r.randint(10, 60)))
        if self.chance("multi"):
            v = r.choice(["", v]) + "".join("\n" + r.choice(["  ", "\t", "    "]) + r.choice(VALUES).strip()
                                            for _ in range(r.randint(1, 3)))
            if r.random() < 0.2:
                v = v.replace("\n", "\n\n  # remark\n", 1)
        if self.chance("pct"):
            k = r.choice(keys) if keys and r.random() < 0.7 else r.choice(KEYS)
            v += r.choice(["%%", "100%%", " %(" + k + ")s", "%(" + k + ")s%%", "%(" + k + ")s" * 2])
            if r.random() < 0.12:
                v += r.choice(["%", "%x", "%(", "%()s", "%(nope)s", "%(k1)", "%(k1)d"])
        if self.chance("quoted"):
            v = r.choice(['"' + v.strip() + '"', '""' + v.strip() + '"', '"' + v.strip(), '"' + v.strip() + '" ', '""', '"'])
        return v

    def weird_key(self):
        r = self.r
        n = r.randint(1, 9)
        alpha = "ab-_ '\"\\.k1#" if r.random() < 0.5 else "op-a 'x\"\\_.!é"
        s = "".join(r.choice(alpha) for _ in range(n)).strip()
        return s

    def opkey(self, ops):
        r = self.r
        op = r.choice(ops)
        word = "".join(r.choice("_-") if c == "_" else c for c in op)
        if self.chance("weird"):
            word = r.choice(['"' + word + '"', "'" + word + "'", word[:1] + '"' + word[1:] + '"', word + '""',
                             "\\" + word, word + ".", word + "!", word.upper(), word + "-", "-" + word, word + " "])
        params = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if not self.chance("large") else r.randint(4, 14)):
            x = r.choice(KEYS + ODD + OPS + ["p1", "p-2", "p_3", "", "a-b_c", "use", " p ", "p ", "  ", "p1", "P1"])
            params.append(q(r, x))
        return r.choice([" ", " ", "  ", "\t"]).join([word] + params)

    def usekey(self, targets, k=0):
        r = self.r
        t = r.choice(targets)
        key = r.choice(["use", "use", "use", "use", "'use'", '"use"', "u\"s\"e"]) + r.choice([" ", " ", "  ", "\t"]) + q(r, t)
        if r.random() < 0.1:
            key += r.choice([" A", " extra words", " ''"])
        return key

    def option(self, sec, names, ops, keys):
        """(key text, value)"""
        r = self.r
        x = r.random()
        if x < self.p["use"]:
            i = names.index(sec) if sec in names else -1
            later = [n for n in names[i + 1:] if ":" not in n and "=" not in n]
            pool = names if (self.chance("cyc") or not later) else later
            if self.chance("missing"):
                pool = ["MISSING", "Missing sec", ""]
            if self.chance("baduse"):
                return r.choice(["use", "use ", "use ''"]), r.choice([None, "A", ""])
            return self.usekey(pool), self.value(keys) if r.random() < 0.1 else r.choice([None, ""])
        if x < self.p["use"] + self.p["op"] and ops:
            return self.opkey(ops), self.value(keys)
        if self.chance("weird"):
            return self.weird_key(), self.value(keys)
        if self.chance("harvest") and WORDS:
            return r.choice(WORDS), self.value(keys)
        return r.choice(KEYS), self.value(keys)

    def section(self, sec, names, ops):
        out, keys = [], []
        for _ in range(self.n("nopt")):
            k, v = self.option(sec, names, ops, keys)
            k0 = k.strip()
            word = k0.split()[0].strip("'\"\\").replace("-", "_") if k0 else ""
            if not k0 or k0[0] in "[#;=:" or k0 in keys or word in BADOP or set(k0) & set("=:"):
                continue
            keys.append(k0)
            out.append((k0, v))
        return out

    def text(self, secs, delims="=:"):
        r = self.r
        out = []
        for s, os_ in secs:
            if r.random() < 0.1:
                out.append(r.choice(["# remark", "; remark", ""]))
            out.append("[%s]" % s)
            for k, v in os_:
                if v is None:
                    out.append(k)
                else:
                    d = r.choice(delims)
                    out.append(k + r.choice(["", " ", "  "]) + d + r.choice(["", " ", " "]) + v)
            if r.random() < 0.2:
                out.append("")
        return "\n".join(out) + "\n"

    def config(self, ops, dname="DEFAULT"):
        r = self.r
        names = self.secnames()
        order = list(names)
        allnames = list(names)
        if self.chance("dflt"):
            order.insert(r.choice([0, 0, r.randint(0, len(order))]), dname)
            if r.random() < 0.6:
                allnames.append(dname)
        return [(s, self.section(s, allnames, ops)) for s in order], order


def opnames(H):
    return [h[0] for h in H if h[0] not in BADOP and h[0] != "use"]


def allkeys(secs):
    return sorted({k for _, os_ in secs for k, _ in os_}) or ["k1"]


READ = ["getitem", "options", "items", "get", "getopt", "has_section", "has_option", "items_all", "keys", "iter", "len",
        "sections", "parse_all", "known", "unroll", "write", "assert_sec", "assert_file", "parse", "raw", "last", "ecl",
        "paths", "delims"]


def args_for(rng, op, names, keys, w=None):
    s = lambda: rng.choice(names) if names and rng.random() < 0.93 else rng.choice(["MISSING", "", "DEFAULT", "A"])
    k = lambda: rng.choice(keys + ["nokey"])
    tf = lambda p=0.5: "T" if rng.random() < p else "F"
    if op in ("getitem", "options", "items", "get", "has_section"):
        return [s()]
    if op in ("getopt", "has_option"):
        return [s(), k()]
    if op == "sections":
        return [rng.choice(["no", "yes", "yes", "yes", "force", "force", "FORCE", "Force"])]
    if op in ("unroll", "write"):
        return [rng.choice(["", s()]), tf(), tf(0.6)]
    if op == "assert_sec":
        return [s(), tf()]
    if op in ("parse", "scribble"):
        return [s(), "T", "T"]
    return []


def owned(rng, H):
    """some handlers, now and then, belong to the instance rather than to its class"""
    if rng.random() < 0.8:
        return ()
    return [p + h[0] for h in H for p in ("handler_", "_handler_") if rng.random() < 0.6]


# ------------------------------------------------------------------ profiles
def run_c01(w, rng, g):
    H = g.handlers()
    secs, order = g.config(opnames(H))
    w.put("f", g.text(secs))
    i = w.new(["f"], H=H, ecl=rng.choice([None, None, 0, 2, 3, 4, 5]), base=rng.random() < 0.1 and not H)
    names = list(order)
    rng.shuffle(names)
    for s in names[:8]:
        w.do(i, rng.choice(["getitem", "options", "items", "get"]), s)
    if rng.random() < 0.3:
        w.do(i, "items_all")
    if rng.random() < 0.3:
        j = w.new(["f"], H=H)
        w.do(j, "getitem", rng.choice(order))
    if rng.random() < 0.2:
        w.do(i, "getitem", "MISSING")


def run_c02(w, rng, g):
    H = g.handlers()
    shape = rng.random()
    if shape < 0.25:      # a ring with chords
        n = rng.randint(1, 9)
        names = ["R%d" % i for i in range(n)]
        secs = []
        for i, s in enumerate(names):
            o = [("k%d" % i, "v%d" % i)] if rng.random() < 0.8 else []
            us = {"use " + names[(i + 1) % n]}
            while rng.random() < 0.35:
                us.add("use " + rng.choice(names))
            for u in sorted(us):
                o.insert(rng.randint(0, len(o)), (u, None))
            secs.append((s, o))
        order = names
        if rng.random() < 0.4:
            secs.insert(0, ("DEFAULT", [("use " + rng.choice(names), None), ("d", "x")]))
            order = ["DEFAULT"] + names
    elif shape < 0.4:     # a long chain closed at the end
        n = rng.choice([5, 12, 30, 60])
        names = ["L%d" % i for i in range(n)]
        secs = [(s, [("a%d" % i, "1"), ("use " + names[i + 1] if i + 1 < n else "use " + rng.choice(names), None),
                     ("z", str(i))]) for i, s in enumerate(names)]
        order = [names[0], names[n // 2], names[-1]]
    elif shape < 0.5:     # diamonds: repeated, finished sections are expanded again
        n = rng.randint(2, 4)
        secs = [("D%d" % i, [("use D%d" % (i + 1), None), ("m%d" % i, "1"), ("use 'D%d'" % (i + 1), None), ("k", str(i))])
                for i in range(n)] + [("D%d" % n, [("k", "end"), ("e", "2")])]
        order = [s for s, _ in secs]
    else:
        secs, order = g.config(opnames(H))
    w.put("f", g.text(secs))
    ecl = rng.choice([None, 0, 1, 3, 4, 5])
    i = w.new(["f"], H=H, ecl=ecl)
    for s in rng.sample(order, min(len(order), 5)):
        op = rng.choice(["getitem", "parse", "options"])
        w.do(i, op, *([s, "T", "T"] if op == "parse" else [s]))
    if rng.random() < 0.3:
        w.do(i, "set_ecl", rng.choice([0, 4, 5]))
        for s in order[:3]:
            w.do(i, "parse", s, "T", "T")


def run_c03(w, rng, g):
    H = g.handlers()
    secs, order = g.config(opnames(H))
    w.put("f", g.text(secs))
    ecl = rng.choice([None, None, 0, 3, 5])
    i = w.new(["f"], H=H, ecl=ecl)
    for s in order[:4]:
        w.do(i, "parse", s, "T", "T")
    for _ in range(2):
        j = w.new(["f"], H=H, ecl=ecl)
        w.do(j, "parse", rng.choice(order), rng.choice("TF"), rng.choice("TF"))


def run_c04(w, rng, g):
    H = g.handlers()
    secs, order = g.config(opnames(H))
    w.put("f", g.text(secs))
    i = w.new(["f"], H=H)
    for s in order:
        w.do(i, "parse", s, "T", "T")
        w.do(i, "getitem", s)


def run_c05(w, rng, g):
    H = g.handlers()
    if rng.random() < 0.5:
        H.append(["danger", "pub", "d", "raise", "0"])
    H2 = g.handlers() if rng.random() < 0.5 else H
    ops = opnames(H) + opnames(H2)
    secs, order = g.config(ops)
    w.put("f", g.text(secs))
    ids = [w.new(["f"], H=H), w.new(["f"], H=H2)]
    scr = {1: False, 2: False}
    for _ in range(rng.randint(4, 10)):
        i = rng.choice(ids)
        x = rng.random()
        s = rng.choice(order)
        if x < 0.45:
            w.do(i, "parse", s, "T", "T")
            scr[i] = False
        elif x < 0.65:
            r, _ = w.do(i, "scribble", s, "T", "T")
            scr[i] = scr[i] or r[0] == "ok"
        elif x < 0.85 and not scr[i]:
            w.do(i, "last")
        elif x < 0.93:
            w.do(i, "set_dbg", rng.choice([0, 1, 3, 5]))
        else:
            w.do(i, "getitem", s)
    if len(order) > 1 and rng.random() < 0.3:
        ids.append(w.new(["f"], H=H))
        w.do(3, "last")
        w.do(3, "parse", order[0], "T", "T")
        w.do(3, "last")


def history(w, rng, i, order, keys, n, ops, edits=False, added=None):
    added = added if added is not None else []
    for _ in range(n):
        op = rng.choice(ops)
        names = order + added
        if op == "set_ecl":
            w.do(i, op, rng.choice([0, 1, 2, 3, 4, 5, 4, -3, 9]))
        elif op == "set_dbg":
            w.do(i, op, rng.choice([0, 0, 1, 2, 3, 4, 5, 6]))
        elif op in ("set", "mut"):
            s = rng.choice(names + (["NEW", "Other"] if op == "set" else []))
            if op == "set" and s not in names:
                added.append(s)
            w.do(i, op, s, rng.choice(keys + ["new", "zz"]), *rng.choice([["s", "edited"], ["n", ""], ["s", "100%"]]))
        elif op == "add":
            s = rng.choice(["NEW", "Other", "X Y"])
            if s not in added:
                added.append(s)
            w.do(i, op, s, rng.choice("TFF"))
        else:
            w.do(i, op, *args_for(rng, op, names, keys))


def run_c06(w, rng, g):
    H = g.handlers()
    secs, order = g.config(opnames(H))
    w.put("f", g.text(secs))
    names = ["f"]
    if rng.random() < 0.3:
        s2, o2 = g.config(opnames(H))
        w.put("g", g.text(s2))
        names = ["f", "g"]
        order = order + [s for s in o2 if s not in order]
    keys = allkeys(secs)
    i = w.new(names, H=H, ecl=rng.choice([None, None, 0, 3, 5]), how=rng.choice([0, 1, 2]))
    ops = READ + ["getitem", "get", "has_section", "has_option", "getopt", "parse", "set_dbg"]
    if rng.random() < 0.5:
        ops = ops + ["set_ecl"]
    if rng.random() < 0.5:
        ops = ops + ["set", "mut", "add", "set"]
    history(w, rng, i, order, keys, rng.randint(4, 22), ops)
    if "set_ecl" not in ops and rng.random() < 0.1:
        w.do(i, "sections", "never")
        w.do(i, "keys")
    if rng.random() < 0.3:
        j = w.new(names, H=H)
        history(w, rng, j, order, keys, 3, READ)
        history(w, rng, i, order, keys, 3, READ)


def run_c07(w, rng, g):
    H = g.handlers()
    order, keys = [], []
    if rng.random() < 0.4:
        w.delims = ["=:", ":", "="] + rng.sample(["|", "~", "=~", "->"[:1] + "|"], 1)
    fs = []
    f, g2, h = ("f", "g", "h") if rng.random() < 0.6 else rng.sample(["z/f", "a/f", "b/f", "c", "f"], 3)
    for n in (f, g2, h):
        secs, o = g.config(opnames(H))
        w.put(n, g.text(secs, delims=rng.choice([d for d in w.delims if len(d) < 3]) if len(w.delims) > 1 else "=:"))
        fs.append(n)
        order += [s for s in o if s not in order]
        keys += allkeys(secs)
    if rng.random() < 0.15:
        w.put("bad", "k = v\n[A]\n")
        fs.append("bad")
    if rng.random() < 0.1:
        fs.append("nofile")
        w.put("nofile", None)
    keys = sorted(set(keys))
    start = rng.choice([[f], [f], [f, g2], ["?"]])
    i = w.new(start, H=H, ecl=rng.choice([None, 0, 5]))
    added = []
    given = start != ["?"]      # edits made before any file was given are not considered
    for _ in range(rng.randint(2, 5)):
        history(w, rng, i, order, keys, rng.randint(0, 5),
                READ + ["getitem", "parse", "last", "set_dbg"] + (["set", "mut", "add"] if given else []), added=added)
        x = rng.random()
        if x < 0.12:
            w.do(i, "bad_paths", rng.choice(["int", "listint", "none", "dict"]))
        elif x < 0.2:
            w.do(i, "bad_delims")
        elif x < 0.4 and len(w.delims) > 1:
            w.do(i, "set_delims", rng.choice(w.delims))
        elif x < 0.5:      # the file changes on disk: nothing is reread until reconfigured
            n = rng.choice([f, g2])
            secs, o = g.config(opnames(H))
            w.put(n, g.text(secs))
            w.changed()
            order += [s for s in o if s not in order]
            if rng.random() < 0.7:
                w.do(i, "set_paths", n)
                given = True
        else:
            w.do(i, "set_paths", *rng.sample(fs, rng.choice([1, 1, 1, 2, 2, 3])))
            given = True
        added = []
        op = rng.choice(["last", "last", "paths", "keys", "raw", "items_all", "delims"])
        w.do(i, op)
    history(w, rng, i, order, keys, rng.randint(2, 6), READ + ["getitem"])


BADTEXT = ["k = v\n", "[A]\nk=1\nk=2\n", "[A]\nx=1\n[A]\ny=2\n", "[A\nk=1\n", "[A]\n= v\n", "text\n[A]\nk=1\n",
           "[A]\nk=1\n[B]\nK=1\nK : 2\n", "[A]\nk\nk = 1\n", "  [A]\n  k = 1\n = x\n"]
OKTEXT = ["", "\n# only a remark\n", "[A]\n", "[A]\nk=1\nK=2\n", "[ A ]\nx\n", "[A]\r\nk = v\r\n  w\r\n", "[A]\nk\n[B]\nk =\n"]


def run_c08(w, rng, g):
    H = g.handlers() if rng.random() < 0.4 else []
    order, keys, fs = [], [], []
    if rng.random() < 0.25:
        w.delims = ["=:", ":", "="]
    pool = ["f", "g", "h", "i"]
    if rng.random() < 0.5:      # anywhere, under names in any order
        pool = rng.sample(["z/f", "a/f", "b/g.ini", "sub dir/x.ini", "z.ini", "a.ini", "B.txt", "0/9", "b.ini ", " z.ini",
                           "a[1].ini", "x*.ini", "$HOME.ini", "~f", "\u00fc.ini", "p:q,r.ini", "an", "an.", "-f", "#g"], 4)
    for n in pool[:rng.randint(1, 4)]:
        x = rng.random()
        if x < 0.1:
            w.put(n, rng.choice(BADTEXT))
        elif x < 0.15:
            w.put(n, rng.choice(OKTEXT))
        elif x < 0.19:
            w.put(n, None)
        elif x < 0.22:
            w.put(n, "<dir>")
        else:
            secs, o = g.config(opnames(H))
            if rng.random() < 0.06 and secs:
                secs.append(rng.choice(secs))
            if rng.random() < 0.06 and secs and secs[0][1]:
                secs[0][1].append(rng.choice(secs[0][1]))
            w.put(n, g.text(secs))
            order += [s for s in o if s not in order]
            keys += allkeys(secs)
        fs.append(n)
    order = order or ["A"]
    keys = sorted(set(keys)) or ["k1"]
    x = rng.random()
    names = [] if x < 0.04 else ["?"] if x < 0.07 else fs + ([fs[0]] if rng.random() < 0.05 else [])
    i = w.new(names, H=H, ecl=rng.choice([None, None, 0, 5]), how=rng.choice([0, 1]))
    ops = ["raw", "raw", "keys", "items_all", "getitem", "len", "sections", "getopt", "has_section", "parse", "get",
           "unroll", "assert_file", "has_option", "iter"]
    history(w, rng, i, order, keys, rng.randint(2, 7), ops)
    if rng.random() < 0.35:         # the disk is repaired or broken, the instance tries again
        n = rng.choice(fs)
        secs, o = g.config(opnames(H))
        w.put(n, rng.choice([g.text(secs), g.text(secs), rng.choice(BADTEXT), None]))
        w.changed()
        if rng.random() < 0.3:
            w.do(i, "set_paths", *names) if names != ["?"] and names else None
        history(w, rng, i, order + o, keys, rng.randint(2, 5), ops)


def run_c09(w, rng, g):
    H = g.handlers()
    secs, order = g.config(opnames(H))
    if rng.random() < 0.3:
        w.delims = ["=:", ":", "=", "=:|"]
    w.put("f", g.text(secs, delims="=:" if len(w.delims) == 1 else ":"))
    keys = allkeys(secs)
    i = w.new(["f"], H=H, ecl=rng.choice([None, 0, 3, 5]))
    if len(w.delims) > 1:
        w.do(i, "set_delims", rng.choice([":", "=:|", "=:"]))
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.5:
            history(w, rng, i, order, keys, rng.randint(1, 3), READ + ["set", "mut", "set_ecl", "set_dbg"])
        op = rng.choice(["unroll", "unroll", "write"])
        base = rng.choice("TTF")
        s = rng.choice(["", "", rng.choice(order), rng.choice(order), "MISSING"])
        r, _ = w.do(i, op, s, rng.choice("TF"), base)
        if rng.random() < 0.5:
            w.do(i, rng.choice(["ecl", "last", "keys", "delims"]))
        if rng.random() < 0.4:
            w.do(i, "getitem", rng.choice(order))
        if r[0] == "ok" and rng.random() < 0.7:
            # read the text back with a fresh instance: the resolved contents are the same
            w.put("u%d" % len(w.steps), r[1])
            w.changed()
            j = w.new(["u%d" % (len(w.steps) - 1)], H=[], dflt="no default section")
            for t in ([s] if s else order[:6]):
                w.do(j, "getitem", t)
            w.do(j, "keys")


def run_c10(w, rng, g):
    H = g.handlers()
    secs, order = g.config(opnames(H))
    w.put("f", g.text(secs))
    i = w.new(["f"], H=H, ecl=rng.choice([None, 0, 1, 2, 3, 4, 5]), own=owned(rng, H))
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if x < 0.55:
            w.do(i, "assert_sec", rng.choice(order + ["MISSING"]), rng.choice("TTF"))
        elif x < 0.65:
            w.do(i, "assert_file")
        elif x < 0.8:
            w.do(i, "told", rng.choice(["", rng.choice(order)]))
        elif x < 0.87:
            w.do(i, "known")
        else:
            history(w, rng, i, order, allkeys(secs), 1, ["set_ecl", "getitem", "parse", "set_dbg", "unroll"])


def run_c12(w, rng, g):
    H = g.handlers()
    secs, order = g.config(opnames(H))
    w.put("f", g.text(secs))
    i = w.new(["f"], H=H, ecl=rng.choice([None, 0, 1, 2, 3, 4, 5]), own=owned(rng, H))
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.25:
            w.do(i, "set_ecl", rng.choice([0, 1, 2, 3, 4, 5]))
        w.do(i, rng.choice(["parse"]), rng.choice(order), "T", "T")
        if rng.random() < 0.3:
            w.do(i, "getitem", rng.choice(order))


def run_c14(w, rng, g):
    """the same history at different debug levels"""
    H = g.handlers()
    secs, order = g.config(opnames(H))
    w.put("f", g.text(secs))
    if rng.random() < 0.3:
        w.put("f", rng.choice(BADTEXT))
    keys = allkeys(secs)
    i = w.new(["f"], H=H, ecl=rng.choice([None, 0, 3, 5]))
    w.do(i, "set_dbg", rng.choice([1, 2, 3, 4, 5, 6, 10]))
    history(w, rng, i, order, keys, rng.randint(4, 12),
            READ + ["parse", "getitem", "set_dbg", "set_dbg", "set_dbg", "last", "set", "parse"])
    if rng.random() < 0.3:
        w.put("g", g.text(secs))
        w.changed()
        w.do(i, "set_paths", "g")
        history(w, rng, i, order, keys, 3, READ)


PROFILES = {
    "C01": (run_c01, [dict(cyc=0.1), dict(cyc=0.05, nopt=(2, 9), nsec=(3, 7)), dict(cyc=0.1, use=0.6),
                      dict(use=0.25, multi=0.3, pct=0.3, quoted=0.3), dict(nsec=(1, 3), nopt=(5, 40), use=0.1),
                      dict(nsec=(12, 25), nopt=(1, 4), cyc=0, use=0.5), dict(missing=0.3), dict(dflt=1.0, cyc=0.2),
                      dict(harvest=0.6)]),
    "C02": (run_c02, [dict(cyc=0.9, use=0.6), dict(cyc=0.6, use=0.5, dflt=1.0), dict(cyc=1.0, use=0.8, nopt=(1, 4), nsec=(1, 4)),
                      dict(cyc=0.8, missing=0.15)]),
    "C03": (run_c03, [dict(op=0.5, use=0.3), dict(op=0.4, use=0.4, dflt=0.9), dict(op=0.4, use=0.4, cyc=0.6),
                      dict(op=0.6, raises=0.15, use=0.3), dict(op=0.5, edge=0.8, harvest=0.4)]),
    "C04": (run_c04, [dict(weird=0.7, op=0.5, use=0.1, nh=(1, 5)), dict(weird=0.2, op=0.8, use=0.1, nh=(1, 6)),
                      dict(weird=1.0, op=0.2, use=0.2, nh=(1, 3), nopt=(2, 6), nsec=(1, 4))]),
    "C05": (run_c05, [dict(op=0.6, use=0.3, nh=(1, 5), edge=0.4), dict(op=0.6, vandal=0.3, nh=(1, 5)),
                      dict(op=0.5, raises=0.2, nh=(2, 5), edge=0.4, rv=0.2)]),
    "C06": (run_c06, [dict(), dict(raises=0.15, op=0.4, nh=(1, 4)), dict(missing=0.2), dict(cyc=0.8, use=0.5),
                      dict(weird=0.3), dict(nsec=(1, 3), nopt=(0, 3)), dict(pct=0.4, missing=0.1)]),
    "C07": (run_c07, [dict(), dict(op=0.4, nh=(1, 4)), dict(nsec=(1, 3)), dict(missing=0.15)]),
    "C08": (run_c08, [dict(use=0.1, pct=0.5), dict(use=0.2, nsec=(1, 3), odd=0.5), dict(noval=0.5, multi=0.4), dict()]),
    "C09": (run_c09, [dict(pct=0.3, multi=0.3), dict(), dict(missing=0.1, cyc=0.5), dict(op=0.5, raises=0.2, nh=(1, 4)),
                      dict(quoted=0.3, noval=0.4, odd=0.5)]),
    "C10": (run_c10, [dict(op=0.6, use=0.38, nh=(2, 5)), dict(op=0.3, use=0.65, nh=(1, 3), nopt=(0, 3)), dict(),
                      dict(op=0.45, use=0.5, nh=(1, 4), dflt=0.9, weird=0.3)]),
    "C12": (run_c12, [dict(op=0.7, use=0.25, nh=(1, 5), rv=0.8, nodeco=0.1), dict(op=0.6, both=0.5, nh=(1, 5)),
                      dict(op=0.6, both=0.3, rv=0.5, nh=(2, 6), edge=0.6)]),
    "C14": (run_c14, [dict(), dict(op=0.5, nh=(1, 4), raises=0.1, rv=0.2), dict(cyc=0.7), dict(missing=0.2, weird=0.2)]),
}


def gen(profile, rng, shard, count):
    run, variants = PROFILES[profile]
    out = []
    scratch = tempfile.mkdtemp(prefix="cpe_")
    try:
        for t in range(count):
            d = os.path.join(scratch, "t%d" % t)
            os.mkdir(d)
            w = World(d)
            kw = dict(variants[t % len(variants)])
            if rng.random() < 0.08:     # now and then something large
                kw.update(rng.choice([dict(nsec=(9, 16), nopt=(0, 3), cyc=0), dict(nopt=(9, 24), nsec=(1, 3)),
                                      dict(nh=(6, 11), nopt=(4, 9), nsec=(1, 3))]), large=0.2)
            run_wrapped(run, w, rng, G(rng, **kw))
            out.append({"id": "%s-%d-%d" % (profile, shard, t), "disk": w.start, "steps": w.steps})
            shutil.rmtree(d)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def run_wrapped(run, w, rng, g):
    """the initial disk is what the files were when the first instance appeared"""
    w.start = None
    new = w.new

    def first_new(*a, **k):
        if w.start is None:
            w.start = w.disk()
        return new(*a, **k)

    w.new = first_new
    run(w, rng, g)


if __name__ == "__main__":
    main(gen)
