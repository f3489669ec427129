"""Make Hypothesis importable, offline.

The interpreter that has jax (/opt/venv) has no Hypothesis.  The wheelhouse of
the sandbox has it, and so has the tooling venv (same Python version); either
is enough.  Nothing is installed outside /verif.
"""
import glob
import os
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
WHEELS = "/opt/veriftools/wheels"
PYENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _importable():
    try:
        import hypothesis  # noqa: F401
        return True
    except ImportError:
        return False


def _extract(target):
    names = sorted(glob.glob(WHEELS + "/hypothesis-*cp312*.whl") +
                   glob.glob(WHEELS + "/hypothesis-*none-any.whl"))[-1:]
    names += sorted(glob.glob(WHEELS + "/sortedcontainers-*.whl"))[-1:]
    if len(names) != 2:
        return False
    parent = os.path.dirname(target)
    os.makedirs(parent, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=parent)
    for n in names:
        with zipfile.ZipFile(n) as z:
            z.extractall(tmp)
    try:
        os.rename(tmp, target)
    except OSError:  # somebody else was faster
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return True


def _links(target):
    """A directory that shows only Hypothesis and its dependency of the tooling venv."""
    os.makedirs(target, exist_ok=True)
    for n in os.listdir(PYENV):
        if n.startswith(("hypothesis", "_hypothesis", "sortedcontainers")):
            try:
                os.symlink(os.path.join(PYENV, n), os.path.join(target, n))
            except FileExistsError:
                pass


def ensure():
    if _importable():
        return
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        sys.path.insert(0, DEPS)
        if _importable():
            return
        sys.path.remove(DEPS)
    for maker in (_extract, _links):
        try:
            if os.path.isdir(DEPS) and not os.path.isdir(os.path.join(DEPS, "hypothesis")):
                os.rmdir(DEPS)
            maker(DEPS)
        except Exception:  # noqa: BLE001 - the next source is tried
            continue
        sys.path.insert(0, DEPS)
        if _importable():
            return
        sys.path.remove(DEPS)
    raise SystemExit("hypothesis is not available")
