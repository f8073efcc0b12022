"""The real keyword tools, LoadEnv and GenConfig behind the operations of
spec/Keywords.tla, in a scratch world of their own."""
import builtins
import contextlib
import getpass
import io
import os
import platform
import re
import shutil
import socket
import sys
import types
from pathlib import Path

HOST = ["nohost"]
USER = ["verif"]
# before the code under test is imported, so that it sees these whatever way it asks
socket.gethostname = lambda: HOST[0]
platform.node = lambda: HOST[0]
getpass.getuser = lambda: USER[0]

from common import b, call, val
import se_real
from se_real import SEWorld, run_bash

ROOT = [None]


class SetProgramOptionsCMake:
    """stands in for a package that is not part of the repository"""

    def __init__(self, filename=None):
        self.filename = filename

    def gen_option_list(self, section, generator="bash"):
        return ["%s|%s|%s" % (os.path.relpath(self.filename, ROOT[0]), section, generator), "second"]


with contextlib.redirect_stdout(io.StringIO()):
    from keywordparser import KeywordParser
    from determinesystem import DetermineSystem
    from src.config_keyword_parser import ConfigKeywordParser
    from loadenv.EnvKeywordParser import EnvKeywordParser
    import load_env
    from load_env import LoadEnv
    _m = types.ModuleType("setprogramoptions")
    _m.SetProgramOptionsCMake = SetProgramOptionsCMake
    sys.modules["setprogramoptions"] = _m
    _p = types.ModuleType("LoadEnv")
    _p.load_env = load_env
    sys.modules["LoadEnv"] = _p
    sys.modules["LoadEnv.load_env"] = load_env
    import gen_config
    from gen_config import GenConfig


def items(text):
    """the entries an overview lists"""
    out = []
    for line in text.splitlines():
        m = re.match(r"(?:\||\s)*- (.*\S)\s*$", line)
        if m and not m.group(1).startswith("Supported "):
            out.append(m.group(1))
    return out


SAFEENV = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.+")


class Command:
    """one of the two command line tools with its arguments"""

    def __init__(self, argv, ini):
        self.argv, self.ini = argv, ini


@contextlib.contextmanager
def configured(module, name, ini):
    """the tool with this file as its own configuration file"""
    old = getattr(module, name)

    class Tool(old):
        def __init__(self, argv, *a, **kw):
            super().__init__(argv, ini)
    setattr(module, name, Tool)
    try:
        yield
    finally:
        setattr(module, name, old)


class KWWorld(SEWorld):
    def __init__(self, root):
        super().__init__(root)
        ROOT[0] = str(self.root)
        USER[0] = os.path.relpath(str(self.root / "usr"), "/tmp")
        self.outs = {}

    def env(self):
        e = super().env()
        e.update({"host": HOST[0], "root": str(self.root), "outs": [[k, v] for k, v in self.outs.items()]})
        return e

    def file(self, name, text):
        (self.root / name).parent.mkdir(parents=True, exist_ok=True)
        self.put(name, text)

    def run(self, fn):
        """like inside, but an exit is told apart from an error"""
        box, said = [], []

        def f():
            try:
                return fn()
            except SystemExit as ex:
                box.append(ex.code)
                raise
            except Exception as ex:
                said.append(str(ex))
                raise
        r, out, after = self.inside(f)
        if r[0] == "err" and r[1][0] == "SystemExit":
            code = box[-1] if box else None
            text = code if isinstance(code, str) else ""
            r = ["exit", "zero" if code is None or code == 0 else "fail", text]
        elif r[0] == "err":
            r = r + [said[-1] if said else ""]
        return r, out, after

    def make(self, *a, **kw):
        kind, a = a[0], list(a[1:])
        rel = kw.get("how", 0)
        path = lambda n: Path(os.path.relpath(self.root / n, self.cwd)) if rel == 2 else (str if rel == 1 else Path)(self.root / n)

        def build():
            if kind == "kw":
                return KeywordParser(path(a[0]))
            if kind == "ds":
                if a[2] == "T" or rel == 0:
                    return DetermineSystem(a[0], path(a[1]), force_build_name=a[2] == "T", silent=rel == 1)
                return DetermineSystem(a[0], path(a[1]))
            if kind == "ck":
                return ConfigKeywordParser(a[0], path(a[1]))
            if kind == "ek":
                return EnvKeywordParser(a[0], a[1], path(a[2]))
            if kind in ("lm", "gm"):
                return Command(kw["argv"], path(a[0]))
            if kind == "le":
                return LoadEnv(kw["argv"], path(a[0]))
            return GenConfig(kw["argv"], path(a[0]))
        r, out, after = self.run(build)
        self.objs.append(r[1] if r[0] == "ok" else None)
        self.steps.append([len(self.objs), "make", [kind] + a, ["ok", "-"] if r[0] == "ok" else r])
        return len(self.objs) if r[0] == "ok" else None

    def probe(self, i):
        """is the environment this command would load safe to put into a script"""
        o = self.objs[i - 1]
        r, out, after = self.run(lambda: LoadEnv(list(o.argv), o.ini).parsed_env_name)
        return r[0] != "ok" or set(r[1]) <= SAFEENV

    def do(self, i, op, *a):
        if op == "raw":
            return None
        o = self.objs[i - 1]
        r = KWOPS[op](self, o, *a)
        self.steps.append([i, op, list(a), r])
        return r


def _announce(w, o, kind, build, *a):
    """what a fresh object prints while it decides"""
    def f():
        if kind == "ds":
            return DetermineSystem(build, w.root / a[0], force_build_name=a[1] == "T", silent=a[2] == "T").system_name
        return EnvKeywordParser(build, a[0], w.root / a[1]).qualified_env_name
    r, out, after = w.run(f)
    return ["ok", [r[1], [x for x in out.splitlines() if x.strip() and not x.startswith("!!")]]] if r[0] == "ok" else r


def get(fn):
    def f(w, o, *a):
        before = dict(w.vars)
        r, out, after = w.run(lambda: fn(o, *a))
        if after != before:
            r = ["err", ["changed the environment"]]
        return r
    return f


def sel(o):
    out = []
    for k, v in o.selected_options.items():
        out.append([k, "list"] + list(v) if isinstance(v, list) else [k, "one", v])
    return out


def opt_type(o, x):
    options, t = o.get_options_and_flag_type_for_flag(x)
    return [t, list(options)]


def setb(o, x):
    o.build_name = x
    return "-"


def det(o):
    o.determine_system()
    return "-"


def _list(w, o, name):
    r, out, after = w.run(lambda: getattr(o, name)())
    if r[0] == "exit":
        r = r + [items(out if r[1] == "zero" else r[2])]
    return r


def _apply(w, o):
    r, out, after = w.run(lambda: o.apply_env())
    w.vars = after
    if r[0] == "ok":
        r = ["ok", "0"]
    return r[:2] + [w.env_list(), w.take_log()]


def _write(w, o):
    target = None

    def f():
        nonlocal target
        target = o.write_load_matching_env()
        return o.tmp_load_matching_env_file
    r, out, after = w.run(f)
    if r[0] != "ok":
        return r
    tmp = Path(r[1])
    texts = [tmp.read_text()]
    last = tmp
    wanted = getattr(o, "xout", None)
    if wanted:
        last = Path(wanted)
        texts.append(last.read_text())
    pure = after == w.vars and not (w.tool / "log").exists() and str(tmp).startswith(str(w.root))
    failed, env = run_bash(w, texts[-1])
    return ["ok", {"same": "T" if len(set(texts)) == 1 else "F", "last": "T" if Path(target) == last else "F",
                   "pure": "T" if pure else "F", "failed": failed, "vars": sorted([k, v] for k, v in env.items()),
                   "log": w.take_log()}]


def _flags(w, o):
    return get(lambda o: o.generated_config_flags_str.split(" \\\n    "))(w, o)


def _fragment(w, o, *answers):
    left = list(answers)

    def fake(prompt=""):
        return left.pop(0)
    saved = builtins.input
    builtins.input = fake
    try:
        r, out, after = w.run(lambda: o.write_cmake_fragment())
    finally:
        builtins.input = saved
    if r[0] == "ok":
        r = ["ok", "-" if os.path.realpath(os.path.join(w.cwd, r[1])) == os.path.realpath(o.xfrag) else "another file"]
    return r


def _outs(w, o):
    d = w.root / "out"
    got = []
    if d.exists():
        for p in sorted(d.rglob("*")):
            if p.is_file():
                got.append([os.path.relpath(p, w.root), p.read_text()])
    return ["ok", got]


def _lemain(w, o, *blocked):
    usr = w.root / "usr"
    shutil.rmtree(usr, ignore_errors=True)
    loc = Path(o.xloc) if o.xloc else None
    if loc:
        loc.write_text("old")

    def f():
        with configured(load_env, "LoadEnv", o.ini):
            load_env.main(list(o.argv))
    r, out, after = w.run(f)
    w.vars = after
    scripts = sorted(usr.glob("load_matching_env_*.sh")) if usr.exists() else []
    told = loc.read_text() if loc else ""
    if r[0] == "ok" and o.list:
        return ["ok", "not listed"]
    if r[0] != "ok":
        if scripts and not blocked or told not in ("", "old"):
            return ["err", ["left files after " + str(r[1])]]
        return r + [items(out)] if o.list and r[0] == "exit" else r[:2] + [w.env_list(), w.take_log()]
    log = w.take_log()
    texts = [p.read_text() for p in scripts] + ([Path(o.xout).read_text()] if o.xout else [])
    good = len(scripts) == 1 and len(set(texts)) == 1 and told == (str(scripts[0]) if loc else "")
    mid = w.env_list()
    failed, env = run_bash(w, texts[0] if texts else "false")
    return ["ok", "0" if good else "wrong files", mid, log,
            {"failed": failed, "vars": sorted([k, v] for k, v in env.items()), "log": w.take_log()}]


def _gcmain(w, o, *answers):
    usr = w.root / "usr"
    usr.mkdir(exist_ok=True)
    loc = usr / ".bash_cmake_args_loc"
    loc.write_text("old")
    for f in (w.root / "sv").iterdir():
        f.unlink()
    left = list(answers)
    saved = builtins.input
    builtins.input = lambda prompt="": left.pop(0)

    def f():
        with configured(gen_config, "GenConfig", o.ini):
            gen_config.main(list(o.argv))
    try:
        r, out, after = w.run(f)
    finally:
        builtins.input = saved
    told, sv = loc.read_text(), sorted(p.name for p in (w.root / "sv").iterdir())
    if after != w.vars:
        return ["err", ["changed the environment"]]
    if r[0] != "ok":
        if told != "old" or sv:
            return ["err", ["left files after " + str(r[1])]]
        return r + [items(out if r[1] == "zero" else r[2])] if r[0] == "exit" else r
    if sv:
        if told != "old":
            return ["err", ["wrote both"]]
        r, out, after = w.run(lambda: loader_view((w.root / "sv" / sv[0]).read_text().split()))
        return [r[0], sv + r[1]] if r[0] == "ok" else r
    if told != "old":
        return ["ok", Path(told).read_text().split(" \\\n    ")]
    return ["ok", "-"]


def leargs(o):
    return loader_view(o.load_env_args)


def loader_view(argv):
    le = LoadEnv(argv)
    rel = lambda p: os.path.relpath(p, ROOT[0])
    return [le.build_name, b(le.args.force), rel(le.args.supported_systems_file), rel(le.args.supported_envs_file),
            rel(le.args.environment_specs_file)]


KWOPS = {
    "values": get(lambda o, s, k: list(o.get_values_for_section_key(s, k))),
    "key": get(lambda o, s, v: o.get_key_for_section_value(s, v)),
    "announce": _announce,
    "system": get(lambda o: o.system_name),
    "determine": get(det),
    "fromhost": get(lambda o, h: val(o.get_sys_name_from_hostname(h))),
    "frombuild": get(lambda o: val(o.get_sys_name_from_build_name())),
    "sysnames": get(lambda o: list(o.supported_sys_names)),
    "selected": get(sel),
    "selstr": get(lambda o: o.selected_options_str),
    "isdefault": get(lambda o, x: b(o.is_default_option(x))),
    "options": get(opt_type),
    "alloptions": get(lambda o: list(o.get_options_list_for_all_flags())),
    "flagitems": get(lambda o: items(o.get_msg_showing_supported_flags("Some message"))),
    "build": get(lambda o: o.build_name),
    "set_build": get(setb),
    "envname": get(lambda o: o.qualified_env_name if isinstance(o, EnvKeywordParser) else o.parsed_env_name),
    "aliases": get(lambda o: sorted(o.aliases)),
    "envitems": get(lambda o: items(o.get_msg_showing_supported_environments("Some message"))),
    "stripped": get(lambda o: o.env_stripped_build_name),
    "listenvs": lambda w, o: _list(w, o, "list_envs"),
    "apply": _apply,
    "write": _write,
    "complete": get(lambda o: o.complete_config),
    "validate": get(lambda o: "-" if o.validate_config_specs_ini() is None else "strange"),
    "flags": _flags,
    "listflags": lambda w, o: _list(w, o, "list_config_flags"),
    "listconfigs": lambda w, o: _list(w, o, "list_configs"),
    "fragment": _fragment,
    "outs": _outs,
    "leargs": get(leargs),
    "lemain": _lemain,
    "gcmain": _gcmain,
}
