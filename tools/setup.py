#!/usr/bin/env python3
"""Builds the harness once, so that the build cache is warm, and has SANY parse the specifications."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
run = check.Run("setup", "quick", 1)
try:
    run.binary()
    run.binary(race=True)
    run.binary(stirred=True)
    run.binary(race=True, stirred=True)
finally:
    import shutil
    shutil.rmtree(run.dir, ignore_errors=True)
for f in sorted(glob.glob(os.path.join(check.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", check.CP, "tla2sany.SANY", os.path.basename(f)], cwd=check.SPEC, capture_output=True, text=True)
    if r.returncode != 0 or "rror" in r.stdout.replace("Errors: 0", ""):
        print(r.stdout[-3000:])
        sys.exit(1)
print("ready")
