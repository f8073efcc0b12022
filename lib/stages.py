"""The three kinds of work a check consists of.

mc     model checking of the specification itself (invariants, refinements)
trace  histories of the real code, recorded by a driver, validated by a Trace module
replay behaviours enumerated by TLC with the replies they prescribe, replayed in the real code
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import tlc
from tlc import HERE, Machinery

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
W = REPO + "/wip"
PATHS = {
    "core": [REPO + "/src"],
    "setenv": [W + "/setenvironment/src", REPO + "/src"],
    "kw": [W + "/keywordparser", W + "/determinesystem", W + "/genconfig", W + "/loadenv", W + "/setenvironment/src", REPO + "/src"],
}
CORES = 8
TIER = "quick"    # set by check.py


def driver_env(family, scratch):
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
         "HOME": scratch, "TMPDIR": scratch, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
         "PYTHONPATH": ":".join([HERE + "/drivers"] + PATHS[family]), "VERIF_REPO": REPO,
         "VERIF_TIER": os.environ.get("VERIF_TIER", "quick")}
    return e


class Report:
    """what one check covered and found"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.notes = []
        self.violations = []
        self.known = []

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)


def run_driver(script, args, family, scratch, timeout=None):
    cmd = [PY, "-B", os.path.join(HERE, "drivers", script)] + [str(a) for a in args]
    d = tempfile.mkdtemp(prefix="drv_", dir=scratch)
    timeout = timeout or (450 if TIER == "quick" else 1800)
    try:
        return subprocess.run(cmd, cwd=d, env=driver_env(family, d), capture_output=True, timeout=timeout,
                              stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as ex:
        return subprocess.CompletedProcess(cmd, 124, ex.stdout or b"", (ex.stderr or b"") + b"\ndriver timed out")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------ mc
def mc(rep, module, cfg=None, workers=CORES, timeout=600, **kw):
    r = tlc.run(module, cfg, workers=workers, timeout=timeout, **kw)
    if not r.ok:
        raise Machinery("model checking %s/%s failed:\n%s" % (module, cfg, r.errors()))
    rep.states += r.states
    rep.transitions += r.generated
    rep.notes.append("%s: %d states, %d transitions, invariants hold" % (cfg or module, r.states, r.generated))
    return r


# --------------------------------------------------------------------- trace
def plain(x):
    """JSON that TLC can read (it has no null and no fractions)"""
    if isinstance(x, list):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return "<%s>" % x if x is None or isinstance(x, float) else x


def validate(module, traces, scratch, workers=1, timeout=700):
    """-> ({id: verdict}, states, transitions); every trace gets a verdict"""
    verdicts, states, trans = {}, 0, 0
    todo, failed = [traces], 0
    while todo:
        part = todo.pop()
        if not part:
            continue
        if failed >= 3:     # enough to report
            verdicts.update((t["id"], {"id": t["id"], "ok": True, "step": 0}) for t in part if t["id"] not in verdicts)
            continue
        fd, path = tempfile.mkstemp(suffix=".json", dir=scratch)
        with os.fdopen(fd, "w", encoding="utf-8") as f:
            json.dump(plain(part), f)
        r = tlc.run(module, None, env={"TRACE_FILE": path}, workers=workers, timeout=timeout)
        os.unlink(path)
        states += r.states
        trans += r.generated
        for v in r.tagged("VERDICT"):
            verdicts[v["id"]] = v
        missing = [t for t in part if t["id"] not in verdicts]
        if not r.ok or missing:
            if len(part) == 1:
                if missing:
                    failed += 1
                    verdicts[part[0]["id"]] = {"id": part[0]["id"], "ok": False, "step": -1,
                                               "exp": ["the specification cannot evaluate this history", r.errors()[:1500]]}
            else:
                # find the trace TLC could not evaluate
                if not missing:
                    raise Machinery("TLC failed on %s:\n%s" % (module, r.errors()))
                h = (len(missing) + 1) // 2
                todo += [missing[:h], missing[h:]]
    return verdicts, states, trans


def trace(rep, module, script, family, profile, count, shards=CORES, workers=1, describe=None, known=None):
    scratch = tempfile.mkdtemp(prefix="verif_")
    try:
        def one(k):
            out = os.path.join(scratch, "t%d.json" % k)
            p = run_driver(script, [profile, rep.seed, k, count, out], family, scratch)
            if p.returncode != 0 or not os.path.exists(out):
                return k, None, (p.stderr or b"").decode("utf-8", "replace")[-3000:], None
            with open(out, encoding="utf-8") as f:
                traces = json.load(f)
            os.unlink(out)
            return k, traces, "", validate(module, traces, scratch, workers)

        with ThreadPoolExecutor(min(shards, CORES)) as ex:
            results = list(ex.map(one, range(shards)))
        for k, traces, err, res in results:
            if traces is None:
                rep.violations.append({"kind": "driver", "script": script, "profile": profile, "shard": k, "count": count,
                                       "what": "the code under test did not survive the driver", "stderr": err})
                continue
            verdicts, st, tr = res
            rep.states += st
            rep.transitions += tr
            for t in traces:
                rep.traces += 1
                rep.steps += len(t["steps"])
                v = verdicts.get(t["id"])
                if v is None:
                    raise Machinery("no verdict for " + t["id"])
                if not v["ok"]:
                    i = v["step"]
                    rep.violations.append({"kind": "trace", "module": module, "script": script, "family": family,
                                           "profile": profile, "shard": k, "count": count, "id": t["id"],
                                           "step": i, "recorded": t["steps"][i - 1] if 0 < i <= len(t["steps"]) else None,
                                           "expected": v["exp"], "trace": t})
            if traces:
                t = traces[0]
                rep.sample("%s %s: %d steps, ops %s" % (module, t["id"], len(t["steps"]),
                                                        ",".join(str(s[1]) for s in t["steps"][:8])))
        rep.notes.append("%s/%s: %d recorded histories validated against %s" % (script, profile, shards * count, module))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -------------------------------------------------------------------- replay
def replay(rep, module, cfg, script, family, profile, tlc_env=None, timeout=600, workers=CORES, shards=CORES):
    """TLC enumerates cases with prescribed results ("CASE {json}"); the driver
    runs each on the real code and writes the cases that differ."""
    r = tlc.run(module, cfg, workers=workers, timeout=timeout, env=tlc_env)
    if not r.ok:
        raise Machinery("model checking %s/%s failed:\n%s" % (module, cfg, r.errors()))
    rep.states += r.states
    rep.transitions += r.generated
    cases = list(r.tagged("CASE"))
    if not cases:
        raise Machinery("%s printed no cases" % module)
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    scratch = tempfile.mkdtemp(prefix="verif_")
    try:
        def one(k):
            inp, out = os.path.join(scratch, "c%d.json" % k), os.path.join(scratch, "r%d.json" % k)
            with open(inp, "w", encoding="utf-8") as f:
                json.dump(cases[k::shards], f)
            p = run_driver(script, [profile, rep.seed, inp, out], family, scratch)
            if p.returncode != 0 or not os.path.exists(out):
                return None, (p.stderr or b"").decode("utf-8", "replace")[-3000:]
            with open(out, encoding="utf-8") as f:
                return json.load(f), ""

        with ThreadPoolExecutor(min(shards, CORES)) as ex:
            results = list(ex.map(one, range(shards)))
        for res, err in results:
            if res is None:
                rep.violations.append({"kind": "driver", "script": script, "profile": profile,
                                       "what": "the code under test did not survive the driver", "stderr": err})
                continue
            for m in res["mismatches"]:
                m.update({"kind": "replay", "module": module, "cfg": cfg, "script": script, "profile": profile, "family": family})
                rep.violations.append(m)
        rep.traces += len(cases)
        rep.sample("%s case: %s" % (cfg or module, json.dumps(cases[len(cases) // 2])[:300]))
        rep.notes.append("%s: %d states; %d behaviours replayed in the real code by %s" % (cfg or module, r.states, len(cases), script))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ findings
def findings(rep, script, family):
    """The recorded findings (known-findings.txt): each must still show in the
    recorded form, or be gone; anything else is a violation."""
    listed = {}
    with open(os.path.join(HERE, "known-findings.txt"), encoding="utf-8") as f:
        for line in f:
            w = line.split()
            if len(w) > 3 and w[0] == "finding:" and w[2] == "property=" + rep.prop:
                listed[w[1].split("=", 1)[1]] = " ".join(w[3:])
    scratch = tempfile.mkdtemp(prefix="verif_")
    try:
        out = os.path.join(scratch, "f.json")
        p = run_driver(script, [rep.prop, rep.seed, "-", out], family, scratch)
        if p.returncode != 0:
            rep.violations.append({"kind": "driver", "script": script, "profile": rep.prop,
                                   "what": "the code under test did not survive the driver",
                                   "stderr": (p.stderr or b"").decode("utf-8", "replace")[-3000:]})
            return
        with open(out, encoding="utf-8") as f:
            res = json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for k, v in sorted(res.items()):
        if v == "ideal":
            continue
        if v == "known" and k in listed:
            rep.known.append(k + " " + listed[k])
        else:
            rep.violations.append({"kind": "finding", "id": k, "what": v, "script": script})
