#!/usr/bin/env python3
"""Builds the runner and the binaries from /repo's working tree, and has TLC parse the specification."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness
harness.build(binaries=True)
for f in sorted(glob.glob(harness.SPEC + "/*.tla")):
    r = subprocess.run(["java", f"-DTLA-Library={harness.SPEC}", "-cp", harness.TLA, "tla2sany.SANY", f], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, cwd=harness.BUILD)
    if r.returncode != 0 or "Semantic errors" in r.stdout or "***Parse Error***" in r.stdout:
        print(r.stdout[-2000:])
        sys.exit(1)
print("ok")
