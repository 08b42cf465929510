"""Environment set-up shared by every check: finds Hypothesis offline, isolates HOME."""
import glob
import os
import sys
import zipfile

PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
NAMES = ("hypothesis", "sortedcontainers", "_hypothesis_pytestplugin.py",
         "_hypothesis_ftz_detector.py", "_hypothesis_globals.py")
REPO = os.environ.get("VERIF_REPO", "/repo")


def add_hypothesis(scratch):
    """Make `import hypothesis` work: already there, linked, or unpacked."""
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    dest = os.path.join(scratch, "deps")
    os.makedirs(dest, exist_ok=True)
    sys.path.append(dest)
    if os.path.isdir(os.path.join(PYVENV, "hypothesis")):
        for path in glob.glob(os.path.join(PYVENV, "*hypothesis*")) + [
                os.path.join(PYVENV, "sortedcontainers")]:
            link = os.path.join(dest, os.path.basename(path))
            if not path.endswith(".dist-info") and not os.path.lexists(link):
                os.symlink(path, link)
        try:
            import hypothesis  # noqa: F401, F811
            return
        except ImportError:
            pass
    for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl"):
        for whl in glob.glob(os.path.join(WHEELS, pat)):
            with zipfile.ZipFile(whl) as zf:
                zf.extractall(dest)
    import hypothesis  # noqa: F401, F811


def prepare(scratch):
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    os.environ["TZ"] = "UTC"
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    sys.dont_write_bytecode = True
    add_hypothesis(scratch)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def prepare_pysat(scratch):
    import pysat
    data = os.path.join(scratch, "home", "pysatData")
    os.makedirs(data, exist_ok=True)
    if pysat.params["data_dirs"] != [data]:
        pysat.params["data_dirs"] = data
    pysat.logger.setLevel(1000)


if __name__ == "__main__":
    # setup_cmd: nothing needs building; show that the pieces are there
    import tempfile
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        prepare(tmp)
        import hypothesis
        import numpy
        import ocbpy
        print("hypothesis", hypothesis.__version__, "numpy",
              numpy.__version__, "ocbpy", ocbpy.__file__)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
