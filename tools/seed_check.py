#!/usr/bin/env python3
"""seed_check.py [--no-tests] [--props C01,C02|all] ID...: validates planted bugs in scratch copies of /repo.

For each ID: the patch applies, the stable tests pass, demo.sh is 0 / non-zero, and the check of its property
(or those of --props) is run against the patched copy.  Nothing is applied to /repo."""
import json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
args = sys.argv[1:]
no_tests = "--no-tests" in args
no_check = "--no-check" in args
args = [a for a in args if a not in ("--no-tests", "--no-check")]
props = None
if "--props" in args:
    i = args.index("--props"); props = args[i + 1].split(","); args = args[:i] + args[i + 2:]
ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        sd = os.path.join(w, "demo"); shutil.copytree(d, sd)
        a = subprocess.run(["bash", sd + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        ap = subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], capture_output=True, text=True)
        b = subprocess.run(["bash", sd + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        # a planted bug must change lines of the original repository, not lines of the repairs
        own = []
        f = None
        for l in open(d + "/patch.diff"):
            if l.startswith("--- a/"):
                f = l[6:].strip(); bl = subprocess.run(["git", "-C", r, "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
            elif l.startswith("@@"):
                ln = int(l.split()[1][1:].split(",")[0])
            elif f and l[0] in " -" and not l.startswith("---"):
                if l[0] == "-" and not bl[ln - 1].lstrip("^").startswith(BASE[:39]):
                    own.append(f"{f}:{ln}")
                ln += 1
        msg = [f"apply={ap.returncode} demo {a.returncode}/{b.returncode}"]
        if own: msg.append("changes lines of own commits: " + ",".join(own))
        if a.returncode: msg.append("CLEAN DEMO FAILS: " + (a.stdout + a.stderr)[-400:])
        if not b.returncode: msg.append("PATCHED DEMO PASSES: " + b.stdout[-300:])
        else: msg.append(" ".join((b.stdout + b.stderr).split())[-150:])
        if not no_tests:
            x = os.path.join(w, "junit.xml")
            subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=400", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=r, env=env, capture_output=True)
            bad = set()
            ok = set()
            for c in ET.parse(x).getroot().iter("testcase"):
                n = c.get("classname") + "::" + c.get("name")
                (bad if any(k.tag in ("failure", "error") for k in c) else ok).add(n)
            miss = [s for s in stable if s not in ok]
            msg.append("tests ok" if not miss else "TESTS FAIL: " + ",".join(miss))
        for p in [] if no_check else (props or [meta["property"]]):
            c = subprocess.run([PY, "run.py", "check", p, "--tier", "quick"], cwd=HERE, env=dict(env, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"), capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            m = [l for l in c.stdout.splitlines() if not l.startswith("VIOLATION")]
            msg.append(f"{p}: {'CAUGHT' if v and c.returncode == 1 else 'MISSED rc=%d' % c.returncode} {m[-2][:230] if len(m) > 1 else m}")
        print(f"== {i}: " + "\n     ".join(msg), flush=True)
    finally:
        shutil.rmtree(w)
