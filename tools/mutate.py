#!/usr/bin/env python3
"""mutate.py OUT [file-substring ...]: first-order mutants of the package in scratch copies, each against the checks of its file.

Survivors (no check of the list objects) are written to OUT for reading by hand: equivalent, unspecified, or a gap."""
import warnings; warnings.simplefilter("ignore")
import ast, concurrent.futures as cf, os, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = "bayesian_sde_solver/"
MAP = {"foster_polynomial.py": "C01 C02 C03 C06", "ito_stratonovich.py": "C04", "ode_solvers/ekf.py": "C17 C20 C10 C16", "ode_solvers/ekf0.py": "C17 C18 C10 C16",
       "ode_solvers/ekf1.py": "C17 C18 C10 C16", "ode_solvers/ekf0_2.py": "C19 C18 C16 C20", "ode_solvers/ekf1_2.py": "C19 C18 C16 C20", "ode_solvers/euler.py": "C09",
       "ode_solvers/probnum/IOUP.py": "C11", "ode_solvers/probnum/_utils.py": "C14 C16 C29", "ode_solvers/probnum/calibration.py": "C20", "ode_solvers/probnum/ekf.py": "C15 C16",
       "ode_solvers/probnum/matern.py": "C12", "ode_solvers/probnum/transition_function.py": "C13", "sde_solver.py": "C05 C06 C27",
       "sde_solvers/diag_15_scheme.py": "C22", "sde_solvers/euler_maruyama.py": "C21 C06", "sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py": "C23",
       "ssm_parabola/ekf.py": "C24", "ssm_parabola/ekf0.py": "C24 C18", "ssm_parabola/ekf1.py": "C24 C18", "ssm_parabola/ssm_parabola_ode.py": "C25 C06",
       "utils/insert.py": "C27", "utils/progress_bar.py": "C27", "utils/ivp.py": "C26"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def rep(n, new, why):
        i, j = pos(n)
        out.append((n.lineno, why, (b[:i] + new.encode() + b[j:]).decode()))
    doc = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in doc:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                rep(n, f"{n.value + 1}", f"{n.value}->{n.value + 1}")
                if n.value > 1:
                    rep(n, f"{n.value - 1}", f"{n.value}->{n.value - 1}")
            elif isinstance(n.value, float):
                rep(n, repr(n.value * 1.25 if n.value else 0.25), f"{n.value} scaled")
        elif isinstance(n, ast.BinOp):
            l, r = txt(n.left), txt(n.right)
            op = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "//"}.get(type(n.op))
            if op:
                rep(n, f"(({l}) {op} ({r}))", f"op {type(n.op).__name__}")
                if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                    rep(n, f"({l})", f"drop right of {type(n.op).__name__}")
            if isinstance(n.op, ast.MatMult):
                rep(n, f"(({l}) @ ({r}).T)", "transpose right")
                rep(n, f"(({l}).T @ ({r}))", "transpose left")
                rep(n, f"(({r}) @ ({l}))", "swap matmul")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            rep(n, txt(n.value), "drop .T")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, f"({txt(n.operand)})", "drop minus")
        elif isinstance(n, ast.Compare):
            new = {ast.Eq: "!=", ast.NotEq: "==", ast.Gt: ">=", ast.GtE: ">", ast.Lt: "<=", ast.LtE: "<"}.get(type(n.ops[0]))
            if new:
                rep(n, f"({txt(n.left)} {new} {txt(n.comparators[0])})", "compare")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, f"(not ({txt(n.test)}))", "negate")
        elif isinstance(n, ast.Call):
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Lambda, ast.Starred, ast.List, ast.Tuple)):
                rep(n, f"({txt(n.args[0])})", f"drop call {txt(n.func)[:20]}")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                i, j = pos(n.args[0])[0], pos(n.args[1])[1]
                out.append((n.lineno, "swap args", (b[:i] + f"{txt(n.args[1])}, {txt(n.args[0])}".encode() + b[j:]).decode()))
            for k in n.keywords:
                if k.arg:
                    out.append((n.lineno, f"drop keyword {k.arg}", (b[:pos(k)[0]] + b[pos(k)[1]:].lstrip(b", ")).decode()))
        elif isinstance(n, (ast.AugAssign,)):
            rep(n, "pass", "delete statement")
        elif isinstance(n, ast.Slice) and n.lower is not None and n.upper is None and n.step is None:
            rep(n, ":", "whole slice")
    seen, res = set(), []
    for m in out:
        try:
            t = ast.dump(ast.parse(m[2]))
        except SyntaxError:
            continue
        if t not in seen and t != ast.dump(tree):
            seen.add(t); res.append(m)
    return res


def run(job):
    f, line, why, new, props = job
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        r = w + "/repo"
        shutil.copytree("/repo/" + PK, r + "/" + PK, ignore=shutil.ignore_patterns("__pycache__"))
        open(r + "/" + PK + f, "w").write(new)
        for p in props:
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
            try:
                c = subprocess.run(["/opt/venv/bin/python", "run.py", "check", p, "--tier", "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return f, line, why, new, "timeout " + p
            if c.returncode == 1:
                return f, line, why, new, "caught " + p
            if c.returncode:
                return f, line, why, new, f"rc {c.returncode} {p}"
        return f, line, why, new, "SURVIVED"
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    out, pat = sys.argv[1], sys.argv[2:]
    jobs = []
    for f, props in MAP.items():
        if pat and not any(q in f for q in pat):
            continue
        ms = mutants(open("/repo/" + PK + f).read())
        cap = int(os.environ.get("CAP", "100000"))
        if len(ms) > cap:
            ms = sorted(random.Random(int(os.environ.get("SAMPLE", "1"))).sample(ms, cap), key=lambda m: m[0])
        jobs += [(f, *m, props.split()) for m in ms]
    print(len(jobs), "mutants", flush=True)
    if os.environ.get("COUNT"):
        sys.exit()
    done = set()
    if os.path.exists(out):
        done = {tuple(l.split("\t")[:4]) for l in open(out)}
    with open(out, "a") as o, cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        todo = []
        for j in jobs:
            old = open("/repo/" + PK + j[0]).read().splitlines()[j[1] - 1].strip()
            nl = j[3].splitlines()[j[1] - 1].strip()
            if (j[0], str(j[1]), j[2], nl) not in done:
                todo.append((j, nl))
        for (j, nl), res in zip(todo, ex.map(run, [t[0] for t in todo])):
            o.write(f"{j[0]}\t{j[1]}\t{j[2]}\t{nl}\t{res[4]}\n"); o.flush()
