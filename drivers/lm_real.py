"""SetEnvironment with Lmod as its module tool: the binding of Lmod and the
`module` command its state is asked with are stand-ins in a scratch directory."""
import contextlib
import io
import os
import sys
import tempfile

from common import Boom, call

BINDING = '''
import sys
HOOK = [None]
def module(*args):
    HOOK[0](args)
'''
HOME = tempfile.mkdtemp(prefix="lmod_")
os.mkdir(HOME + "/init")
with open(HOME + "/init/env_modules_python.py", "w") as f:
    f.write(BINDING)
os.environ["MODULESHOME"] = HOME
with contextlib.redirect_stdout(io.StringIO()):
    from setenvironment import ModuleHelper, SetEnvironment  # noqa: imported first, so that it finds Lmod
import env_modules_python
import se_real

ASK = """#!/bin/sh
[ "$1" = is-loaded ] || exit 3
while read l; do
[ "$l" = "$2" ] && exit 0
done < %s
exit 1
"""


class LMWorld(se_real.SEWorld):
    def __init__(self, root):
        super().__init__(root)
        (self.root / "bin").mkdir()
        (self.root / "there").mkdir()
        p = self.root / "bin" / "module"
        p.write_text(ASK % (self.root / "state"))
        p.chmod(0o755)
        self.set_lmod([], [], {}, record=False)

    def set_lmod(self, loaded, plan, v, record=True):
        self.loaded, self.plan, self.log = list(loaded), list(plan), []
        self.vars = dict(v)
        self.save()
        if record:
            self.steps.append([0, "lmod", [list(loaded), list(plan), self.env_list()], ["ok", "-"]])

    def save(self):
        (self.root / "state").write_text("".join(x + "\n" for x in self.loaded))

    def env(self):
        return {"disk": self.disk(), "vars": self.env_list(), "loaded": self.loaded, "there": [str(self.root / "there")], "plan": self.plan}

    def tool_call(self, args):
        args = [a if isinstance(a, str) else "not-a-str" for a in args]
        self.log.append(list(args))
        p = self.plan.pop(0) if self.plan else {"act": "do", "err": "", "out": ""}
        if p["out"]:
            print(p["out"])
        if p["err"]:
            print(p["err"], file=sys.stderr)
        if p["act"] == "name":
            raise NameError("x")
        if p["act"] == "raise":
            raise Boom()
        if p["act"] == "do":
            c = args[0]
            if c == "load" and args[1] not in self.loaded:
                self.loaded.append(args[1])
            elif c in ("unload", "swap") and args[1] in self.loaded:
                self.loaded.remove(args[1])
            if c == "swap" and args[2] not in self.loaded:
                self.loaded.append(args[2])
            if c == "purge":
                self.loaded = []
        self.save()

    def do(self, i, op, *a):
        o = self.objs[i - 1] if i else None
        env_modules_python.HOOK[0] = self.tool_call
        self.log = []
        if op == "apply":
            fn = lambda: o.apply(a[0])
        else:
            cmd, args, aslist = a
            fn = lambda: ModuleHelper.module(list(cmd) if aslist == "T" else cmd[0], *args)
        r, out, after = self.inside(fn)
        self.vars = after
        rest = [self.env_list(), list(self.loaded), self.log, out]
        if r[0] == "ok":
            v = r[1]
            r = ["ok", "strange" if not isinstance(v, int) or isinstance(v, bool) else "0" if v == 0 else "nonzero"]
        self.steps.append([i, op, list(a), r + rest])
        return r + rest
