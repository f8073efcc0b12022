"""The real ConfigParserEnhanced behind the operations of spec/CPE.tla."""
import configparser
import contextlib
import io
import os
import re
import traceback
import types
from pathlib import Path

from common import Boom, b, call, opts, val

import configparserenhanced
from configparserenhanced import ConfigParserEnhanced

EDGE = ("initialize", "finalize")
NONINT = {"x": "text", "x1": None, "x2": 1.5, "x3": [0]}


def record(self, e, hp, sec="", log=None):
    name = str(hp.handler_name)
    k, v = "", None
    op, params = "", []
    if name in ("handler_initialize", "handler_finalize"):
        if name == "handler_initialize" and "vandal" in hp.data_internal:
            name = "leak"
        op, params = hp.op, [str(p) for p in hp.params]
        if hp.raw_option != (None, None) or hp.value != "":
            name = "stale-option"
    else:
        k, v = hp.raw_option
        if v is not hp.value and v != hp.value:
            name = "value-differs-from-raw-option"
        if not name.startswith(("handler_", "_handler_")):
            name = "generic"
        else:
            op, params = hp.op, [str(p) for p in hp.params]
            if name == "_handler_use":
                name = "handler_use"
    self.xev.append([e, name, sec, str(hp.section_root), op, params, str(k)] + val(v) + [list(log or [])])


def mk_handler(op, name, deco, act, rv):
    def handler(self, section_name, hp):
        record(self, "call", hp, section_name, hp.data_shared.get("log", []))
        if act == "raise":
            raise Boom()
        if act in ("log", "vandal"):
            if act == "log":
                if op in EDGE:
                    entry = "|".join([section_name, op, "", ""])
                else:
                    entry = "|".join([section_name, op, ",".join(hp.params), hp.value or ""])
                hp.data_shared.setdefault("log", []).append(entry)
            else:
                hp.params.append("junk")
                hp.op = "junk"
                hp.value = "junk"
                hp.raw_option = ("junk", "junk")
                hp.data_internal["vandal"] = "junk"
        if rv.startswith("x"):
            return NONINT[rv]
        if rv in ("True", "False"):
            return rv == "True"
        return int(rv)

    handler.__name__ = name
    return ConfigParserEnhanced.operation_handler(handler) if deco == "d" else handler


def mk_class(H):
    def enter_handler(self, hp):
        record(self, "enter", hp)
        return ConfigParserEnhanced.enter_handler(self, hp)

    def exit_handler(self, hp):
        record(self, "exit", hp)
        return ConfigParserEnhanced.exit_handler(self, hp)

    d = {"enter_handler": enter_handler, "exit_handler": exit_handler}
    have = {h[0] for h in H}
    for op, vis, deco, act, rv in [*H] + [[e, "pub", "d", "none", "0"] for e in EDGE if e not in have]:
        if vis in ("pub", "both"):
            d["handler_" + op] = mk_handler(op, "handler_" + op, deco, act, rv)
        if vis == "priv" or (vis == "both" and op != "use"):
            d["_handler_" + op] = mk_handler(op, "_handler_" + op, deco, act, rv)
    return type("Sub", (ConfigParserEnhanced,), d)


def raw_form(text, delims):
    """What the standard library makes of one file on its own."""
    cp = configparser.ConfigParser(allow_no_value=True, delimiters=tuple(delims), interpolation=None,
                                   default_section="CONFIGPARSERENHANCED_COMMON")
    cp.optionxform = str
    try:
        if isinstance(text, bytes):
            text = text.decode("utf-8")
        # same newline treatment as reading a file
        cp.read_file(io.StringIO(text, newline=None), source="f")
    except Exception as ex:  # its class is the observation
        return [delims, type(ex).__name__, []]
    return [delims, "", [[s, [[k] + val(v) for k, v in cp.items(s, raw=True)]] for s in cp.sections()]]


class World:
    """Files in a scratch directory and the instances working on them."""

    def __init__(self, root):
        self.root = Path(root)
        self.objs = []
        self.steps = []
        self.delims = ["=:"]
        self.files = {}
        self.paths = {}

    # -- disk ---------------------------------------------------------------
    def put(self, name, text):
        # when exactly an instance reads its files is not observable: make
        # sure that those that can have done so before the disk changes
        for i in range(len(self.objs)):
            self.do(i + 1, "raw")
        p = self.root / name
        p.parent.mkdir(parents=True, exist_ok=True)
        if p.is_dir():
            p.rmdir()
        if text is None:
            if p.exists():
                p.unlink()
        elif text == "<dir>":
            if p.exists():
                p.unlink()
            p.mkdir()
        else:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)
        self.files[name] = text

    def disk(self):
        out = []
        for n, t in self.files.items():
            if t is None:
                out.append([n, "none", []])
            elif t == "<dir>":
                out.append([n, "dir", []])
            else:
                out.append([n, "file", [raw_form(t, d) for d in self.delims]])
        return out

    # -- instances ----------------------------------------------------------
    def path(self, n, how=0):
        p = self.root / n
        return p if how else str(p)

    def new(self, names, dflt="DEFAULT", ecl=None, H=(), base=False, how=0, own=()):
        cls = ConfigParserEnhanced if base else mk_class(H)
        arg = None
        if names != ["?"]:
            arg = [self.path(n, how) for n in names]
            if how == 2 and len(arg) == 1:
                arg = arg[0]
        o = cls(arg) if arg is not None else cls()
        o.xev = []
        o.xbase = base
        for name in own:      # handlers that the instance has, not its class
            fn = cls.__dict__.get(name)
            if fn is not None:
                delattr(cls, name)
                setattr(o, name, types.MethodType(fn, o))
        if dflt != "DEFAULT":
            o.default_section_name = dflt
        if ecl is not None:
            o.exception_control_level = ecl
        self.objs.append(o)
        self.steps.append([len(self.objs), "new", [names, dflt, 4 if ecl is None else ecl, [list(h) for h in H]],
                           ["ok", "-"], []])
        return len(self.objs)

    def do(self, i, op, *a):
        o = self.objs[i - 1]
        o.xev = []
        fn = OPS[op]
        r, out = call(lambda: fn(self, o, *a))
        ev = [["*"]] if o.xbase else o.xev
        self.steps.append([i, op, list(a), r, ev])
        return r, out

    def changed(self):
        self.steps.append([0, "disk", self.disk(), ["ok", "-"], []])


def D(o):
    return o.configparserenhanceddata


def log_of(r):
    if r is None or not isinstance(r, dict):
        return ["not-a-dict"]
    extra = [str(k) for k in r if k != "log"]
    return list(r.get("log", [])) + extra


def _paths(w, o, *names):
    o.inifilepath = [w.path(n) for n in names]
    return "-"


def _bad_paths(w, o, kind):
    o.inifilepath = {"int": 3, "listint": ["x.ini", 3], "none": None, "dict": {}}[kind]
    return "-"


def _delims(w, o, d):
    o.configparser_delimiters = tuple(d)
    return "-"


def _write(w, o, s, spaced, base):
    f = io.StringIO()
    r = o.write(f, space_around_delimiters=spaced == "T", section=s or None, use_base_class_parser=base == "T")
    return f.getvalue() if r == 0 and not isinstance(r, bool) else "returned " + repr(r)


def _assert(r):
    return "0" if r == 0 else "bad"


def _told(w, o, s):
    """What a failing check tells about: every option that some section has is looked for, in quotes, line by line."""
    out, text, r = io.StringIO(), "", 0
    with contextlib.redirect_stdout(out):
        try:
            r = o.assert_section_all_options_handled(s) if s else o.assert_file_all_sections_handled()
        except ValueError as ex:
            # an assertion that fails, or a parse that does
            if any(f.name == "parse_section" for f in traceback.extract_tb(ex.__traceback__)):
                raise
            text = str(ex)
    if not text and _assert(r) == "0":
        return ["0"]
    text += "\n" + out.getvalue() + "\n" + (r if isinstance(r, str) else "")
    lines = set(text.split("\n"))
    keys = {k.strip() for sec in o.configparserdata.sections() for k in o.configparserdata.options(sec)}
    return ["bad", sorted(k for k in keys if any(re.fullmatch(r"[\s|*-]*'" + re.escape(k) + "'[,.;]?", x) for x in lines)), sorted(o.get_known_operations())]


def _sections(w, o, mode):
    return list(D(o).sections({"no": False, "yes": True}.get(mode, mode)))


def _set_ecl(w, o, n):
    o.exception_control_level = n
    return "-"


def _set_dbg(w, o, n):
    o.debug_level = n
    return "-"


def _set(w, o, s, k, tag, text):
    return val(D(o).set(s, k, None if tag == "n" else text))


def _mut(w, o, s, k, tag, text):
    D(o)[s][k] = None if tag == "n" else text
    return [tag, text]


def _last(w, o):
    r = o.parse_section_last_result
    if r is None:
        return ["none"]
    return ["log"] + log_of(r)


def _scribble(w, o, s, i, f):
    """parse, then scribble over the returned dictionary"""
    r = o.parse_section(s, initialize=i == "T", finalize=f == "T")
    out = log_of(r)
    r["log"] = ["scribble"]
    r["more"] = 1
    return out


OPS = {
    "getitem": lambda w, o, s: opts(D(o)[s]),
    "options": lambda w, o, s: opts(D(o).options(s)),
    "items": lambda w, o, s: opts(dict(D(o).items(s))),
    "get": lambda w, o, s: opts(D(o).get(s)),
    "getopt": lambda w, o, s, k: val(D(o).get(s, k)),
    "has_section": lambda w, o, s: b(D(o).has_section(s)),
    "has_option": lambda w, o, s, k: b(D(o).has_option(s, k)),
    "items_all": lambda w, o: [[s, opts(m)] for s, m in D(o).items()],
    "keys": lambda w, o: list(D(o).keys()),
    "iter": lambda w, o: [s for s in D(o)],
    "len": lambda w, o: str(len(D(o))),
    "raw": lambda w, o: [[s, [[k] + val(v) for k, v in o.configparserdata.items(s, raw=True)]]
                         for s in o.configparserdata.sections()],
    "sections": _sections,
    "parse_all": lambda w, o: "-" if o.parse_all_sections() is None else "returned",
    "parse": lambda w, o, s, i, f: log_of(o.parse_section(s, initialize=i == "T", finalize=f == "T")),
    "scribble": _scribble,
    "last": _last,
    "add": lambda w, o, s, f: opts(D(o).add_section(s, f == "T")),
    "set": _set,
    "mut": _mut,
    "unroll": lambda w, o, s, sp, ba: o.unroll_to_str(section=s or None, space_around_delimiters=sp == "T",
                                                      use_base_class_parser=ba == "T"),
    "write": _write,
    "assert_sec": lambda w, o, s, d: _assert(o.assert_section_all_options_handled(s, do_raise=d == "T")),
    "told": _told,
    "assert_file": lambda w, o: _assert(o.assert_file_all_sections_handled()),
    "known": lambda w, o: [str(x) for x in o.get_known_operations()],
    "set_paths": _paths,
    "bad_paths": _bad_paths,
    "set_delims": _delims,
    "bad_delims": lambda w, o: setattr(o, "configparser_delimiters", 3),
    "bad_parse": lambda w, o: o.parse_section(3),
    "set_ecl": _set_ecl,
    "set_dbg": _set_dbg,
    "ecl": lambda w, o: str(o.exception_control_level),
    "paths": lambda w, o: [str(p.relative_to(w.root)) for p in o.inifilepath],
    "delims": lambda w, o: "".join(o.configparser_delimiters),
}
