#!/usr/bin/env python3
"""replay.py <violation file>: rebuild the harness named in the file and replay its choice sequence."""
import sys, re, os, subprocess, tempfile, shutil
sys.argv, f = [sys.argv[0]], sys.argv[1]
import run
txt = open(f).read()
prop, har, su, tier = re.search(r"# property (\S+), harness (\S+), suite (\S+), tier (\S+)", txt).groups()
ch = [l for l in txt.splitlines() if l and not l.startswith("#")]
d = tempfile.mkdtemp()
try:
    s, exe, msg = run.compile_one(f"{run.V}/harness/{har}.cpp", d, tier)
    if exe is None:
        sys.exit(msg)
    open(d + "/r", "w").write(" ".join(ch))
    env = dict(os.environ, **run.ENVX, MC_SCRATCH=d, MC_VERIF=run.V)
    sys.exit(subprocess.run([exe, "--suite", su, "--tier", tier, "--replay", d + "/r"], env=env, cwd=d).returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
