"""Running TLC, and reading what it printed."""
import json
import os
import re
import shutil
import subprocess
import tempfile

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")


class Machinery(Exception):
    pass


class Result:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        self.ok = "Model checking completed. No error has been found." in out or \
            ("Finished in" in out and "Error:" not in out and rc == 0)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.states = int(m.group(2)) if m else 0
        self.lines = []

    def tagged(self, tag):
        """JSON payloads of the lines printed as PrintT("TAG " \\o ToJson(x))"""
        pre = '"' + tag + " "
        for line in self.out.splitlines():
            if line.startswith(pre):
                yield json.loads(json.loads(line)[len(tag) + 1:])

    def errors(self):
        out = "\n".join(x for x in self.out.splitlines() if not x.startswith('"'))
        i = out.find("Error:")
        return out[i:i + 3000] if i >= 0 else out[-2000:]


def run(module, cfg=None, env=None, workers=4, heap="4g", timeout=800, extra=()):
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xss256m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-Dsun.stdout.encoding=UTF-8", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", d, "-fp", "0", *extra,
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            return Result((ex.stdout or b"").decode("utf-8", "replace") + "\nError: TIMEOUT", 124)
        return Result(p.stdout.decode("utf-8", "replace") + p.stderr.decode("utf-8", "replace"), p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)
