"""Framework: sub-checks driven by Hypothesis, in worker processes.

A *sub-check* is a generator of cases (a Hypothesis strategy producing a
JSON-able dict) and a check of one case against an explicit oracle.  A property
is a set of sub-checks.  A worker process runs one (sub-check, shard); the
orchestrator (run.py) merges their reports.
"""
import hashlib
import json
import os
import time
import traceback

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SHRINK_SECONDS = 40.0


class Violation(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, message, signature=None):
        super().__init__(message)
        self.signature = signature


class Sub:
    def __init__(self, name, strategy, check, quick=40, thorough=400, shards=1,
                 thorough_shards=None, x64=True, rule="", weight=1.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, 2)
        self.x64 = x64
        self.rule = rule
        self.weight = weight


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def in_repo(exc):
    """Does the traceback of this exception go through the package under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if os.path.abspath(fr.filename).startswith(REPO + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def load_known():
    """Lines "known: property=<id> sub=<name> sig=<signature> <what fails>"."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                d = dict(w.split("=", 1) for w in line.split()[1:4])
                out[(d["property"], d["sub"], d["sig"])] = line.split(None, 4)[4].strip()
    return out


def check_import():
    """The package that is imported must be the working tree under test."""
    try:
        import bayesian_sde_solver as b
        paths = [os.path.abspath(p) for p in b.__path__]
    except ImportError:
        raise SystemExit("cannot import bayesian_sde_solver")
    want = os.path.join(REPO, "bayesian_sde_solver")
    if paths != [want]:
        raise SystemExit(f"imported {paths}, expected {want}")


def run_case(sub, case):
    """Run one case.  Returns the info dict; raises Violation; other exceptions
    that pass through the package become Violations too (every generated case is
    a valid call)."""
    try:
        return sub.check(case) or {}
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        if in_repo(e):
            raise Violation(f"raised {type(e).__name__}: {str(e)[:300]}") from e
        raise


def thin_mutations(every=5):
    """Hypothesis derives up to five near-copies of each fresh case (equal parts in several places).  That is
    worth doing for some cases; for all of them it would leave most configurations of a small budget untried."""
    from hypothesis.internal.conjecture import engine
    orig = getattr(engine.ConjectureRunner, "generate_mutations_from", None)
    if orig is None or getattr(orig, "thinned", False):
        return
    count = [0]

    def generate_mutations_from(self, data):
        count[0] += 1
        if count[0] % every == 0:
            orig(self, data)
    generate_mutations_from.thinned = True
    engine.ConjectureRunner.generate_mutations_from = generate_mutations_from


def run_sub(prop, sub, shard, nshards, tier, seed, budget_s, part=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    thin_mutations()
    known = {k[2]: v for k, v in load_known().items() if k[0] == prop and k[1] == sub.name}
    h = hashlib.sha256(f"{seed}:{prop}:{sub.name}:{shard}/{nshards}".encode()).digest()
    n_examples = sub.quick if tier == "quick" else sub.thorough
    st = {"evaluations": 0, "nontrivial": set(), "samples": [], "labels": {}, "failing": {},
          "last": None, "t_fail": None, "skipped": 0, "known": {}, "harness": None}
    t0 = time.time()

    def report():
        rep = {k: st[k] for k in ("evaluations", "samples", "labels", "skipped", "known")}
        rep.update(sub=sub.name, shard=shard, nontrivial=sorted(st["nontrivial"]), rule=sub.rule,
                   wall_s=round(time.time() - t0, 2), violation=None, harness=None)
        if st["failing"]:
            rep["violation"] = {"case": st["last"], "message": st["failing"][canon(st["last"])], "tried": len(st["failing"])}
        return rep

    def save():
        """What has been explored so far, in case this process is stopped."""
        if part:
            with open(part + ".tmp", "w") as f:
                json.dump(report(), f)
            os.replace(part + ".tmp", part)

    saved = [time.time()]
    save()

    @hypothesis.seed(int.from_bytes(h[:8], "big"))
    @settings(max_examples=n_examples, database=None, deadline=None, report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink], print_blob=False,
              suppress_health_check=list(HealthCheck))
    @given(sub.strategy(shard, nshards))
    def test(case):
        c = canon(case)
        if c in st["failing"]:
            st["last"] = case
            raise Violation(st["failing"][c])
        now = time.time()
        if st["t_fail"] is not None and now - st["t_fail"] > SHRINK_SECONDS:
            return
        if st["t_fail"] is None and now - t0 > budget_s:
            st["skipped"] += 1
            return
        try:
            info = run_case(sub, json.loads(c))
        except Violation as v:
            if v.signature is not None and v.signature in known:
                st["known"][v.signature] = known[v.signature]
                return
            st["failing"][c] = str(v)
            st["last"] = case
            if st["t_fail"] is None:
                st["t_fail"] = now
                save()
            raise
        except Exception:
            st["harness"] = traceback.format_exc() + "\ncase: " + c
            raise
        if st["t_fail"] is None:
            st["evaluations"] += 1
            for lab in info.get("labels", ()):
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if info.get("nontrivial", True):
                st["nontrivial"].add(hashlib.sha256(c.encode()).hexdigest()[:16])
                if len(st["samples"]) < 2:
                    st["samples"].append(case)
            if time.time() - saved[0] > 2:
                save()
                saved[0] = time.time()

    try:
        test()
    except BaseException as e:  # noqa: BLE001
        if not st["failing"] and st["harness"] is None:
            st["harness"] = "".join(traceback.format_exception(e))
    rep = report()
    if not st["failing"] and st["harness"]:
        rep["harness"] = st["harness"]
    return rep
