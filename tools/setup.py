#!/usr/bin/env python3
"""Setup: every specification must parse; nothing is built or downloaded."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
bad = 0
mods = sorted(glob.glob(os.path.join(HERE, "spec", "*.tla")))
for k in range(0, len(mods), 8):
    ps = [(m, subprocess.Popen(["tla-sany", os.path.basename(m)], cwd=os.path.join(HERE, "spec"), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)) for m in mods[k:k + 8]]
    for m, p in ps:
        out = p.communicate()[0].decode("utf-8", "replace")
        if p.returncode != 0 or "*** Errors" in out or "Fatal errors" in out:
            bad += 1
            print(m, out[-2000:])
sys.exit(1 if bad else 0)
