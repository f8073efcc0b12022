#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Exit 0: the property held on everything explored.
Exit 1: VIOLATION lines were printed.
Exit 2: the machinery itself failed (never a statement about the code).
"""
import argparse
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan      # noqa: E402
import stages    # noqa: E402
from tlc import Machinery  # noqa: E402

MAX_SHOWN = 5


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a = ap.parse_args()
    # the code under test sees the same surroundings however the check was started
    for s in (signal.SIGHUP, signal.SIGTERM, signal.SIGQUIT, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD):
        signal.signal(s, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    os.umask(0o022)
    t0 = time.time()
    rep = stages.Report(a.prop, a.tier, a.seed)
    stages.TIER = a.tier
    P = plan.PLAN[a.prop]
    try:
        for stage in P["stages"]:
            stage(rep)
            if rep.violations and a.tier == "quick":
                break
            if len(rep.violations) > 50:
                break
    except Machinery as ex:
        if not rep.violations:
            print("MACHINERY ERROR property=%s\n%s" % (a.prop, ex))
            return 2
        rep.notes.append("stopped early: %s" % str(ex)[:200])
    except Exception:
        if not rep.violations:
            traceback.print_exc()
            return 2
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    for n in os.listdir(os.path.join(ev, "replays")):
        if n.startswith(a.prop + "-"):
            os.unlink(os.path.join(ev, "replays", n))
    shown = []
    for i, v in enumerate(rep.violations[:MAX_SHOWN]):
        path = os.path.join(ev, "replays", "%s-%d.json" % (a.prop, i))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, ensure_ascii=False)
        shown.append(path)
    for k in rep.known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    wall = round(time.time() - t0, 2)
    doc = {
        "property": a.prop, "tier": a.tier, "seed": int(a.seed), "level": P["level"],
        "coverage": {"states": rep.states, "transitions": rep.transitions,
                     "traces_validated_against_impl": rep.traces, "steps_validated": rep.steps,
                     "samples": rep.samples, "stages": rep.notes},
        "assumptions": P.get("assumptions", []) + plan.ASSUMPTIONS,
        "wall_s": wall,
        "violations": len(rep.violations),
    }
    with open(os.path.join(ev, a.prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    for p in shown:
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
    if rep.violations:
        v = rep.violations[0]
        print("  first: " + json.dumps({k: v[k] for k in v if k not in ("trace",)}, ensure_ascii=False)[:1500])
        return 1
    print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (a.prop, a.tier, rep.states, rep.traces, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
