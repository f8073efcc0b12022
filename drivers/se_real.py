"""The real SetEnvironment in a world of its own: files, environment
variables, executables and a module tool, all inside a scratch directory."""
import ast
import os
import re
import shlex
import subprocess
import sys
from pathlib import Path

from common import call, val
import cpe_real
from cpe_real import World

os.environ.pop("MODULESHOME", None)
import io
import contextlib
with contextlib.redirect_stdout(io.StringIO()):
    from setenvironment import ModuleHelper, SetEnvironment

SNAP = ["A", "B", "C", "M1"]
NOISE = {"PWD", "SHLVL", "_", "OLDPWD"}

FAKE = """#!/bin/sh
D=%(d)s
n=0
[ -f "$D/cnt" ] && read n < "$D/cnt"
n=$((n+1))
echo $n > "$D/cnt"
{
printf 'ARGS\\0'
printf '%%s\\0' "$@"
printf 'VARS\\0'
%(snap)s
printf 'END\\0'
} >> "$D/log"
[ -f "$D/out$n" ] && . "$D/out$n"
exit 0
"""
SNAPSH = "\n".join("[ \"${%s+x}\" ] && printf '%s=%%s\\0' \"$%s\"" % (v, v, v) for v in SNAP)
BASHMOD = """
module() {
{ printf 'ARGS\\0python\\0'; for i in "$@"; do printf '%%s\\0' "$i"; done; printf 'VARS\\0'
%(snap)s
printf 'END\\0'; } >> %(d)s/log
}
trap '/usr/bin/env -0 > %(d)s/dump; exec 2>/dev/null' EXIT
"""


def sq(s):
    return "'" + s.replace("'", "'\\''") + "'"


class SEWorld(World):
    def __init__(self, root):
        super().__init__(root)
        self.tool = self.root / "tool"
        self.tool.mkdir()
        self.bins = []
        self.exe = []
        self.vars = {}
        self.cwd = self.root / "cwd"
        self.cwd.mkdir()

    # -- the surroundings ---------------------------------------------------
    def add_bin(self, name, exes, modulecmd=False):
        d = self.root / name
        d.mkdir()
        self.bins.append(str(d))
        for e in exes:
            p = d / e
            p.write_text("#!/bin/sh\nexit 0\n")
            p.chmod(0o755)
            self.exe.append(str(p))
        if modulecmd:
            p = d / "modulecmd"
            p.write_text(FAKE % {"d": self.tool, "snap": SNAPSH})
            p.chmod(0o755)
            self.exe.append(str(p))

    def sysbin(self):
        """the tools generated bash scripts call, and nothing else"""
        d = self.root / "sysbin"
        if not d.exists():
            d.mkdir()
            for t in ("which", "sed"):
                (d / t).symlink_to("/usr/bin/" + t)
        return str(d)

    def set_plan(self, plan, record=True):
        for f in self.tool.iterdir():
            f.unlink()
        for i, p in enumerate(plan):
            lines = []
            code = ["import os"]
            for e in p["emits"]:
                if e[0] == "set":
                    code.append("os.environ[%r] = %r" % (e[1], e[2]))
                elif e[0] == "unset":
                    code.append("os.environ.pop(%r, None)" % e[1])
                else:
                    code.append("raise IndexError('emitted')")
            if p["ml"]:
                code.append("_mlstatus = %s" % (p["ml"] == "T"))
            lines.append("printf '%s\\n' " + sq("\n".join(code)))
            if p["bad"] == "T":
                lines.append("printf '%s\\n' " + sq(p.get("text") or "Module ERROR: no such thing") + " >&2")
            elif p.get("text"):
                lines.append("printf '%s\\n' " + sq(p["text"]) + " >&2")
            lines.append("exit %d" % p["code"])
            (self.tool / ("out%d" % (i + 1))).write_text("\n".join(lines) + "\n")
        if record:
            self.steps.append([0, "plan", [{k: p[k] for k in ("code", "bad", "emits", "ml")} for p in plan], ["ok", "-"]])

    def take_log(self):
        f = self.tool / "log"
        if not f.exists():
            return []
        parts = f.read_bytes().decode("utf-8", "replace").split("\0")
        f.unlink()
        out, i = [], 0
        while i < len(parts) - 1:
            assert parts[i] == "ARGS", parts
            j = parts.index("VARS", i)
            k = parts.index("END", j)
            args = parts[i + 1:j]
            args = args[1:] if args[:1] == ["python"] else ["NOT-PYTHON"] + args
            out.append([args, [x.split("=", 1) for x in parts[j + 1:k]]])
            i = k + 1
        return out

    def env_list(self):
        return sorted([k, v] for k, v in self.vars.items())

    def inside(self, fn, seconds=20):
        """run fn with exactly self.vars as the environment -> reply, stdout, variables after"""
        saved = dict(os.environ)
        cwd = os.getcwd()
        try:
            os.environ.clear()
            os.environ.update(self.vars)
            os.chdir(self.cwd)
            r, out = call(fn, seconds)
            after = dict(os.environ)
        finally:
            os.environ.clear()
            os.environ.update(saved)
            os.chdir(cwd)
        return r, out, after

    def env(self):
        return {"disk": self.disk(), "vars": self.env_list(), "exe": self.exe, "plan": []}

    def set_vars(self, v, record=True):
        self.vars = dict(v)
        if record:
            self.steps.append([0, "vars", self.env_list(), ["ok", "-"]])

    # -- instances ----------------------------------------------------------
    def new(self, names, ecl=None, how=0):
        arg = None if names == ["?"] else [self.path(n, how) for n in names]
        if arg and how == 2 and len(arg) == 1:
            arg = arg[0]
        o = SetEnvironment(filename=arg) if arg is not None else SetEnvironment()
        o.xev = []
        if ecl is not None:
            o.exception_control_level = ecl
        self.objs.append(o)
        self.steps.append([len(self.objs), "new", [names, "DEFAULT", 4 if ecl is None else ecl], ["ok", "-"]])
        return len(self.objs)

    def changed(self):
        self.steps.append([0, "disk", self.disk(), ["ok", "-"]])

    def do(self, i, op, *a):
        o = self.objs[i - 1] if i else None
        r = SEOPS[op](self, o, *a) if op in SEOPS else call(lambda: cpe_real.OPS[op](self, o, *a))[0]
        self.steps.append([i, op, list(a), r])
        return r


def act(x):
    if not isinstance(x, dict):
        return ["strange", ["s", str(type(x))], ["n", ""]]
    keys = set(x)
    if keys not in ({"op", "envvar", "value"}, {"op", "module", "value"}):
        return ["strange", ["s", " ".join(sorted(map(str, keys)))], ["n", ""]]
    op = x["op"]
    name = x["envvar"] if "envvar" in x else x["module"]
    if ("envvar" in x) != op.startswith("envvar_"):
        op = "strange " + op
    return [op, val(name), val(x["value"])]


def _actions(w, o, s):
    def f():
        m = o.actions
        return [act(x) for x in m[s]] if s in m else ["none"]
    return call(f)[0]


def _keep(w, o, s, n):
    def f():
        if s not in o.actions:
            return "none"
        o.actions[s] = o.actions[s][:n]
        return "kept"
    return call(f)[0]


def _parse(w, o, s, i, f):
    def g():
        r = o.parse_section(s, initialize=i == "T", finalize=f == "T")
        extra = [["strange", ["s", str(k)], ["n", ""]] for k in r if k != "setenvironment"]
        return [act(x) for x in r["setenvironment"]] + extra
    return call(g)[0]


def _apply(w, o, s):
    r, out, after = w.inside(lambda: o.apply(s))
    w.vars = after
    rest = [w.env_list(), w.take_log()]
    if r[0] == "err":
        return r + rest
    v = r[1]
    return ["ok", "0" if v == 0 and not isinstance(v, bool) else "nonzero" if isinstance(v, int) else "strange"] + rest


def _module(w, o, cmd, args, aslist):
    c = list(cmd) if aslist == "T" else cmd[0]
    r, out, after = w.inside(lambda: ModuleHelper.module(c, *args))
    w.vars = after
    rest = [w.env_list(), w.take_log()]
    if r[0] == "err":
        return r + rest
    return ["ok", str(r[1]) if isinstance(r[1], int) and not isinstance(r[1], bool) else "strange"] + rest


def has_defs(text, interp):
    if interp == "bash":
        return re.search(r"^\s*(function\s+)?envvar_op\s*\(\)", text, re.M) is not None
    try:
        return any(isinstance(n, ast.FunctionDef) and n.name == "envvar_op" for n in ast.parse(text).body)
    except SyntaxError:
        return "syntax"


def run_python(w, text, sub):
    if sub:
        src = w.root / "script.py"
        src.write_text(text, encoding="utf-8")
        main = ("import sys, os, io\nsys.path[:0] = %r\nenv = %r\nos.environ.clear()\nos.environ.update(env)\nfailed = 'F'\n"
                "so = sys.stdout\nsys.stdout = io.StringIO()\n"
                "try:\n    exec(compile(open(%r, encoding='utf-8').read(), 's', 'exec'), {'__name__': '__main__'})\n"
                "except BaseException:\n    failed = 'T'\n"
                "sys.stdout = so\nimport json\nprint(json.dumps([failed, dict(os.environ)]))\n"
                % ([p for p in sys.path if p], w.vars, str(src)))
        p = subprocess.run([sys.executable, "-c", main], capture_output=True, cwd=w.cwd)
        import json
        failed, after = json.loads(p.stdout.decode().splitlines()[-1])
        return failed, after
    r, out, after = w.inside(lambda: exec(compile(text, "s", "exec"), {"__name__": "__main__"}))
    return "T" if r[0] == "err" else "F", after


def run_bash(w, text):
    f = w.root / "script.sh"
    f.write_text(text, encoding="utf-8")
    dump = w.tool / "dump"
    wrap = BASHMOD % {"snap": SNAPSH, "d": w.tool} + ". " + sq(str(f)) + "\ntrue\n"
    p = subprocess.run(["/bin/bash", "--norc", "--noprofile", "-c", wrap], env=w.vars, cwd=w.cwd, capture_output=True, timeout=30)
    after = {}
    if dump.exists():
        for x in dump.read_bytes().decode("utf-8", "surrogateescape").split("\0"):
            if "=" in x:
                k, v = x.split("=", 1)
                if k in w.vars or k not in NOISE:
                    after[k] = v
        dump.unlink()
    return "F" if p.returncode == 0 else "T", after


def _script(w, o, s, interp, hdr, body, sheb, via, sub):
    before = {k: [act(x) for x in v] for k, v in o.actions.items()}
    flags = [hdr == "T", body == "T", sheb == "T"]
    path = w.root / "written"
    old = None
    if path.exists():
        path.unlink()
    elif via == "file":
        # something is there already: it must be replaced as a whole
        old = ("OLD_CONTENT=1\n" if interp == "python" else "export OLD_CONTENT=1\n") * 2000
        path.write_text(old)

    def gen():
        if via == "file":
            rv = o.write_actions_to_file(path if sub == "T" else str(path), s, include_header=flags[0], include_body=flags[1],
                                         include_shebang=flags[2], interpreter=interp)
            if rv != 0:
                return ["refused" if (path.read_text() if path.exists() else None) == old else "refused but written"]
            text = path.read_text()
            return ["stale content"] if old is not None and "OLD_CONTENT" in text else text
        return o.generate_actions_script(s, incl_hdr=flags[0], incl_body=flags[1], incl_shebang=flags[2], interp=interp)

    r, out, after = w.inside(gen)
    if r[0] == "err":
        return r
    if isinstance(r[1], list):
        return r[1]
    text = r[1]
    if interp not in ("bash", "python"):
        return ["refused"] if text == "" else ["text for " + interp]
    now = {k: [act(x) for x in v] for k, v in o.actions.items()}
    pure = after == w.vars and all(now.get(k) == before[k] for k in before) and not (w.tool / "log").exists()
    full = text
    if not flags[0] and flags[1]:
        full = o.generate_actions_script(s, incl_hdr=True, incl_body=False, incl_shebang=False, interp=interp) + "\n" + text
    if interp == "bash":
        failed, env = run_bash(w, full)
    else:
        failed, env = run_python(w, full, sub == "T")
    d = has_defs(text, interp)
    return ["ok", {"empty": "T" if text.strip() == "" else "F", "shebang": "T" if text.startswith("#!") else "F",
                   "defs": {True: "T", False: "F"}.get(d, d), "pure": "T" if pure else "F", "failed": failed,
                   "vars": sorted([k, v] for k, v in env.items()), "log": w.take_log()}]


def _pretty(w, o, s):
    """the listing, without its heading"""
    r, out, after = w.inside(lambda: o.pretty_print_actions(s))
    if r[0] == "err":
        return r
    if after != w.vars or (w.tool / "log").exists():
        return ["ok", "changed the environment"]
    head, bar, text = out.rpartition("\n=======\n")
    return ["ok", text if bar else out]


def _showvars(w, o, every, filters, only):
    """the variables shown, without the heading"""
    def f():
        if every == "T":
            return o.pretty_print_envvars(None, True) if only == "T" else o.pretty_print_envvars()
        return o.pretty_print_envvars(list(filters), only == "T") if only == "T" else o.pretty_print_envvars(envvar_filter=list(filters))
    r, out, after = w.inside(f)
    if r[0] == "err":
        return r
    if r[1] != 0:
        return ["ok", ["strange result"]]
    if after != w.vars:
        return ["ok", ["changed the environment"]]
    return ["ok", out.split("[envvar]: ")[1:]]


SEOPS = {"actions": _actions, "keep": _keep, "parse": _parse, "apply": _apply, "module": _module, "script": _script, "pretty": _pretty, "showvars": _showvars}
