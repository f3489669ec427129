#!/usr/bin/env python3
"""revert_check.py: for each "fixed:" entry of KNOWN_FINDINGS.txt, the check of its property against a scratch copy with the repair undone."""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if not m or (sys.argv[1:] and m[2] not in sys.argv[1:]):
        continue
    p, c, what = m.groups()
    w = tempfile.mkdtemp(prefix="rev-")
    try:
        r = w + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        v = subprocess.run(["git", "-C", r, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", c], capture_output=True, text=True)
        if v.returncode:
            # later repairs touched the same lines: take the file as it was before the repair
            subprocess.run(["git", "-C", r, "reset", "-q", "--hard"], check=True)
            for f in subprocess.run(["git", "-C", r, "diff", "--name-only", c + "~1", c], capture_output=True, text=True).stdout.split():
                subprocess.run(["git", "-C", r, "checkout", "-q", c + "~1", "--", f], check=True)
        for q in [p] + re.findall(r"C\d\d", what):
            t = subprocess.run(["/opt/venv/bin/python", "run.py", "check", q, "--tier", "quick"], cwd=HERE, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1"), capture_output=True, text=True)
            ls = [x for x in t.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"{c} {q}: {'reported' if ls else 'MISSED rc=%d' % t.returncode}{' (file before the repair)' if v.returncode else ''} | {' '.join(t.stdout.split())[:0]}{what[:80]}", flush=True)
    finally:
        shutil.rmtree(w)
