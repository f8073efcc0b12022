"""The shell wrappers load-env.sh and gen-config.sh, installed in a scratch
directory and sourced in a real bash session."""
import os
import select
import shutil
import subprocess
import sys
from pathlib import Path

import kw_real
from kw_real import HOST, USER, KWWorld
from se_real import NOISE, SNAPSH, sq

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PACKAGES = {"configparserenhanced": "src/configparserenhanced", "determinesystem": "wip/determinesystem/determinesystem",
            "keywordparser": "wip/keywordparser/keywordparser", "setenvironment": "wip/setenvironment/src/setenvironment"}
SKIP = {"tests", "test", "doc", "examples", "deps", "ini_files", "__pycache__"} | set(PACKAGES)
SPO = '''import os
class SetProgramOptionsCMake:
    def __init__(self, filename=None):
        self.filename = filename
    def gen_option_list(self, section, generator="bash"):
        rel = os.path.relpath(self.filename, %r)
        if generator == "bash":
            return ["-Dspec=" + rel, '-Dwords="a b"', "-Dsection=" + section]
        return ["%%s|%%s|%%s" %% (rel, section, generator), "second"]
'''
STUB = """#!/bin/bash
{ printf 'ARGS\\0python\\0cmake\\0'; for i in "$@"; do printf '%%s\\0' "$i"; done; printf 'VARS\\0'
%(snap)s
printf 'END\\0'; } >> %(d)s/log
exit %(code)d
"""
LOOP = """
module() {
{ printf 'ARGS\\0python\\0'; for i in "$@"; do printf '%%s\\0' "$i"; done; printf 'VARS\\0'
%(snap)s
printf 'END\\0'; } >> %(d)s/log
}
export -f module
trap '/usr/bin/env -0 > %(d)s/dump' EXIT
while read -r vstep <&9; do
. "$vstep"
echo done >&8
done
"""


class ShWorld(KWWorld):
    def install(self, cmake=0):
        """both tools as their installation scripts lay them out"""
        def tree(src, dst):
            shutil.copytree(src, dst, ignore=lambda d, names: [n for n in names if n in SKIP])
            for n, p in PACKAGES.items():
                (dst / n).symlink_to(os.path.join(REPO, p))
        tree(os.path.join(REPO, "wip/loadenv"), self.root / "le")
        tree(os.path.join(REPO, "wip/genconfig"), self.root / "gc")
        tree(os.path.join(REPO, "wip/loadenv"), self.root / "gc/LoadEnv")
        (self.root / "gc/setprogramoptions").mkdir()
        (self.root / "gc/setprogramoptions/__init__.py").write_text(SPO % str(self.root))
        d = self.root / "sysbin"
        d.mkdir()
        (d / "python3").write_text("#!/bin/sh\nexec %s -B -E -s %s %s %s \"$@\"\n" % (
            sys.executable, sq(os.path.join(HERE, "sh_python.py")), sq(HOST[0]), sq(USER[0])))
        (d / "cmake").write_text(STUB % {"snap": SNAPSH, "d": self.tool, "code": cmake})
        (d / "sleep").write_text("#!/bin/sh\nexit 0\n")
        for f in d.iterdir():
            f.chmod(0o755)
        (self.root / "home").mkdir()
        (self.root / "usr").mkdir()
        (self.root / "srcdir").mkdir()
        # files of the caller that must survive
        for n in ("rc", "env", "load_matching_env.sh", ".load_matching_env_loc", "sh"):
            (self.cwd / n).write_text("mine")
        self.shell = None

    def start(self):
        a, b = os.pipe()
        c, e = os.pipe()
        (self.root / "loop").write_text(LOOP % {"snap": SNAPSH, "d": self.tool})

        def fds():
            os.dup2(a, 50)
            os.dup2(e, 51)
            os.dup2(50, 9)
            os.dup2(51, 8)
        self.shell = subprocess.Popen(["/bin/bash", "--norc", "--noprofile", str(self.root / "loop")], env=self.vars, cwd=self.cwd,
                                      stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                      start_new_session=True, close_fds=False, preexec_fn=fds)
        os.close(a)
        os.close(e)
        self.tosh, self.fromsh = b, c

    def stop(self):
        if self.shell:
            os.close(self.tosh)
            try:
                self.shell.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(self.shell.pid, 9)
                self.shell.wait()
            os.close(self.fromsh)
            self.shell = None

    def dumped(self, name, drop=()):
        f = self.tool / name
        if not f.exists():
            return None
        out = {}
        for x in f.read_bytes().decode("utf-8", "surrogateescape").split("\0"):
            if "=" in x:
                k, v = x.split("=", 1)
                if k in self.vars or k not in NOISE and not k.startswith("BASH_FUNC_") and k not in drop:
                    out[k] = v
        f.unlink()
        return sorted([k, v] for k, v in out.items())

    def present(self, usr):
        out = {}
        for d in [self.cwd] + ([self.root / "usr"] if usr else []):
            for p in d.rglob("*"):
                if p.is_file():
                    out[str(p)] = p.read_text(errors="replace")
        return out

    def source(self, i, tool, args, ci, src, again, how, ini2=""):
        """source the wrapper in the session"""
        script = self.root / ("le/load-env.sh" if tool == "load" else "gc/gen-config.sh")
        if not self.shell:
            self.start()
        before = self.present(tool == "load")
        inner = "/usr/bin/env -0 > %s/inner\n" % self.tool
        if again:
            inner += "source %s --ci-mode %s\necho $? > %s/innerrc\n/usr/bin/env -0 > %s/inner2\n" % (
                sq(str(self.root / "le/load-env.sh")), " ".join(sq(x) for x in again), self.tool, self.tool)
        (self.root / "step.in").write_text(inner + "exit\n")
        (self.root / "step.sh").write_text("source %s%s < %s > %s 2> %s\nvstatus=$?\n/usr/bin/env -0 > %s\n{ echo $vstatus; trap -p SIGHUP SIGINT SIGTERM; } > %s\n" % (
            sq(str(script)), "".join(" " + sq(x) for x in args), *(sq(str(self.root / n)) for n in ("step.in", "step.out", "step.err", "tool/dump", "status"))))
        os.write(self.tosh, (str(self.root / "step.sh") + "\n").encode())
        ready, _, _ = select.select([self.fromsh], [], [], 40)
        if not ready:
            os.killpg(self.shell.pid, 9)
        answer = os.read(self.fromsh, 100)
        left = "clean"
        if not answer:          # the shell is gone
            self.stop()
            r = ["exited", self.dumped("dump") or [], self.take_log()]
        else:
            lines = (self.root / "status").read_text().splitlines()
            vs = self.dumped("dump")
            drop = ("cmake_args_file", "path_to_src")
            sub = self.dumped("inner", drop)
            sub2 = self.dumped("inner2", drop)
            rc2 = (self.tool / "innerrc").read_text().strip() if (self.tool / "innerrc").exists() else ""
            inn = []
            if sub is not None:
                inn = [sub, rc2, "same" if sub2 is None or sub2 == sub else "changed"]
            if len(lines) > 1:
                left = "traps"
            after = self.present(tool == "load")
            if after != before:
                left = "files " + " ".join(sorted(os.path.relpath(k, self.root) for k in set(before) ^ set(after) or before))
            r = ["ok", lines[0], vs, self.take_log(), inn, left]
            (self.tool / "innerrc").unlink(missing_ok=True)
        self.steps.append([i, "source", [tool, ci, src, "T" if again else "F", how, ini2], r])
        return r
