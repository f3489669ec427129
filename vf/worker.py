"""worker: run one shard of one sub-check, write the report."""
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from vf import core, deps  # noqa: E402

sys.path.insert(0, core.REPO)


def main():
    deps.ensure()
    core.check_import()
    mode = sys.argv[1]
    from vf import registry
    if mode == "run":
        prop, name, shard, nshards, tier, seed, budget, out = sys.argv[2:10]
        sub = registry.subs(prop)[name]
        rep = core.run_sub(prop, sub, int(shard), int(nshards), tier, int(seed), float(budget), out + ".part")
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(rep, f)
        os.replace(tmp, out)
    elif mode == "replay":
        d = json.load(open(sys.argv[2]))
        sub = registry.subs(d["property"])[d["sub"]]
        try:
            info = core.run_case(sub, d["case"])
        except core.Violation as v:
            print(f"violated: {v}")
            sys.stdout.flush()
            os._exit(1)
        print(f"held: {info}")
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


main()
