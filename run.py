#!/opt/venv/bin/python
"""run.py setup | check <ID> [--tier quick|thorough] | replay <file> | list

check:  exit 0 if the property held on everything explored, exit 1 with a line
        "VIOLATION property=<id> replay=<path>", exit 2 on an error of the check.
Environment: VERIF_SEED, VERIF_TIER, VERIF_REPO (default /repo), VERIF_JOBS.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import core, deps  # noqa: E402
from vf.env import worker_env  # noqa: E402

PY = "/opt/venv/bin/python"
WORKER = os.path.join(HERE, "vf", "worker.py")


def cmd_setup(_):
    deps.ensure()
    r = subprocess.run([PY, "-c", "import jax, numpy, scipy"], env=worker_env(True))
    return r.returncode


def plan(subs, tier):
    tasks = []
    for s in subs.values():
        n = s.shards if tier == "quick" else s.thorough_shards
        tasks += [(s, i, n) for i in range(n)]
    return sorted(tasks, key=lambda t: -t[0].weight)


def cmd_check(a):
    t0 = time.time()
    prop = a.property
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    jobs = int(os.environ.get("VERIF_JOBS") or max(1, min(8, os.cpu_count() or 8)))
    budget = float(os.environ.get("VERIF_BUDGET") or (300 if tier == "quick" else 600))
    limit = budget + 200
    total = float(os.environ.get("VERIF_TOTAL") or (560 if tier == "quick" else 1e9))      # seconds for the whole check
    last = total + 250                                                                     # whatever still runs is stopped
    deps.ensure()
    # the registry is read in a jax-free way: modules import jax lazily through vf.lib
    os.environ.update({k: v for k, v in worker_env(True).items() if k.startswith(("JAX", "XLA", "OMP", "OPENBLAS", "TF_"))})
    sys.path.insert(0, core.REPO)
    from vf import registry
    subs = registry.subs(prop)
    if a.sub:
        subs = {k: v for k, v in subs.items() if k in a.sub.split(",")}
    tasks = plan(subs, tier)
    work = tempfile.mkdtemp(prefix="vf-")
    running, reports, errors, stopped = [], [], [], 0
    try:
        queue = list(enumerate(tasks))
        while queue or running:
            while queue and len(running) < jobs:
                share = (total - (time.time() - t0)) / -(-len(queue) // jobs)      # of the time left, for this round of workers
                mine = max(15.0, min(budget, share))
                i, (s, k, n) = queue.pop(0)
                out = os.path.join(work, f"{i}.json")
                log = open(os.path.join(work, f"{i}.log"), "wb")
                p = subprocess.Popen([PY, WORKER, "run", prop, s.name, str(k), str(n), tier, str(seed), str(mine), out],
                                     env=worker_env(s.x64), stdout=log, stderr=subprocess.STDOUT, cwd=work,
                                     stdin=subprocess.DEVNULL)
                running.append((p, s, k, out, log, time.time()))
            time.sleep(0.02)
            for r in list(running):
                p, s, k, out, log, ts = r
                if p.poll() is None:
                    if time.time() - ts > limit or time.time() - t0 > last:
                        p.kill()
                        p.wait()
                    else:
                        continue
                running.remove(r)
                log.close()
                if os.path.exists(out):
                    reports.append(json.load(open(out)))
                elif p.returncode == -9 and os.path.exists(out + ".part"):
                    reports.append(json.load(open(out + ".part")))      # stopped for lack of time: what it had explored
                    stopped += 1
                else:
                    tail = open(log.name, errors="replace").read()[-3000:]
                    errors.append(f"worker {s.name}/{k} ended with {p.returncode}:\n{tail}")
    finally:
        for r in running:
            r[0].kill()
        shutil.rmtree(work, ignore_errors=True)

    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration"}
    per, samples, total, nontriv = {}, [], 0, 0
    violations = []
    known = {}
    for s in subs.values():
        mine = sorted((r for r in reports if r["sub"] == s.name), key=lambda r: r["shard"])
        hs = set()
        lab = {}
        n = 0
        for r in mine:
            n += r["evaluations"]
            hs.update(r["nontrivial"])
            known.update(r["known"])
            for k2, v in r["labels"].items():
                lab[k2] = lab.get(k2, 0) + v
            if r["harness"]:
                errors.append(f"{s.name}/{r['shard']}: {r['harness']}")
            if r["violation"] and not any(v[0] == s.name for v in violations):
                violations.append((s.name, r["violation"]))
        total += n
        nontriv += len(hs)
        samples += [{"sub": s.name, "case": c} for r in mine[:1] for c in r["samples"][:1]]
        per[s.name] = {"evaluations": n, "distinct_nontrivial": len(hs), "labels": dict(sorted(lab.items())),
                       "not_run_for_lack_of_time": sum(r["skipped"] for r in mine),
                       "worker_s": [r["wall_s"] for r in mine], "rule": s.rule}
    meta = registry.meta(prop)
    ev["coverage"] = {"evaluations": total, "distinct_nontrivial": nontriv,
                      "rule": "Hypothesis-generated cases, per sub-check: " +
                              " | ".join(f"{k}: {v['rule']}" for k, v in per.items()),
                      "samples": samples, "subchecks": per}
    ev["assumptions"] = meta.get("assumptions", [])
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - t0, 2)
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    if not a.sub:
        tmp = os.path.join(edir, f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(edir, f"{prop}.json"))
    for sig, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    for k, v in per.items():
        print(f"{prop} {k}: {v['evaluations']} cases, {v['distinct_nontrivial']} distinct non-trivial, "
              f"worker seconds {v['worker_s']}" + (f" {v['labels']}" if a.verbose else ""))
    if stopped:
        print(f"{prop}: {stopped} workers were stopped after {round(time.time() - t0)} s, in the middle of a case")
    for name, v in violations:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{name}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": name, "x64": subs[name].x64, "case": v["case"],
                       "message": v["message"], "seed": seed, "tier": tier}, f, indent=1)
        print(f"  {name}: {v['message']}\n  minimal case: {json.dumps(v['case'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if errors:
        print("ERROR of the check:\n" + "\n".join(errors))
        return 2
    short = [k for k, v in per.items() if v["evaluations"] == 0]
    if short:
        print(f"ERROR of the check: nothing explored by {short}")
        return 2
    print(f"{prop}: held on {total} cases ({nontriv} distinct non-trivial), {ev['wall_s']} s")
    return 0


def cmd_replay(a):
    d = json.load(open(a.file))
    return subprocess.run([PY, WORKER, "replay", os.path.abspath(a.file)], env=worker_env(d["x64"])).returncode


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    sp.add_parser("setup")
    c = sp.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier")
    c.add_argument("--sub")
    c.add_argument("-v", "--verbose", action="store_true")
    r = sp.add_parser("replay")
    r.add_argument("file")
    a = ap.parse_args()
    try:
        rc = {"setup": cmd_setup, "check": cmd_check, "replay": cmd_replay}[a.cmd](a)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2      # no answer
    sys.exit(rc)


if __name__ == "__main__":
    main()
