"""Environment of a check: /repo's working tree on sys.path, its two extension
modules rebuilt from the current .pyx sources, Hypothesis importable.

The extension modules are compiled outside /repo into a content-addressed
cache (VERIF/.build, or a private temporary directory when that is not
writable), so a stale .so lying in /repo is never used.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PV_REPO", "/repo")

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONWARNINGS"] = "ignore"
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

EXTS = {
    "pystruct.models.utils": "src/utils.pyx",
    "pystruct.inference._viterbi": "pystruct/inference/_viterbi.pyx",
}
HYP_DIRS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


class EnvError(Exception):
    pass


def _compile(src, out_so):
    """Cython + gcc in a private directory, then an atomic move into place."""
    import numpy
    tmp = tempfile.mkdtemp(prefix="pvbuild")
    try:
        base = os.path.basename(src)
        shutil.copy(src, os.path.join(tmp, base))
        c = os.path.join(tmp, base[:-4] + ".c")
        so = os.path.join(tmp, "ext.so")
        r = subprocess.run([sys.executable, "-m", "cython", "-2", "-o", c,
                            os.path.join(tmp, base)],
                           capture_output=True, text=True)
        if r.returncode:
            raise EnvError("cython failed on %s:\n%s" % (src, r.stderr[-3000:]))
        r = subprocess.run(
            ["gcc", "-shared", "-fPIC", "-pthread", "-O1", "-fwrapv", "-w",
             "-I" + sysconfig.get_paths()["include"],
             "-I" + numpy.get_include(), c, "-o", so],
            capture_output=True, text=True)
        if r.returncode:
            raise EnvError("gcc failed on %s:\n%s" % (src, r.stderr[-3000:]))
        part = out_so + ".%d.part" % os.getpid()
        shutil.copy(so, part)
        os.replace(part, out_so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _key(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def build():
    """Return {module name: path of a freshly built .so}."""
    cache = os.path.join(VERIF, ".build")
    try:
        os.makedirs(cache, exist_ok=True)
        if not os.access(cache, os.W_OK):
            raise OSError
    except OSError:
        cache = tempfile.mkdtemp(prefix="pvext")
    out = {}
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        for mod, rel in EXTS.items():
            src = os.path.join(REPO, rel)
            so = os.path.join(cache, "%s-%s.so" % (mod, _key(src)))
            out[mod] = so
            if not os.path.exists(so):
                jobs.append(ex.submit(_compile, src, so))
    for j in jobs:
        j.result()
    return out


class _Finder(object):
    """meta_path finder that serves the freshly built extension modules."""

    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def setup():
    for d in HYP_DIRS:
        if os.path.isdir(os.path.join(d, "hypothesis")) and d not in sys.path:
            sys.path.append(d)   # after the project's own site-packages
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        _from_wheels()
    sys.meta_path.insert(0, _Finder(build()))
    sys.path.insert(0, REPO)
    import pystruct
    if not os.path.abspath(pystruct.__file__).startswith(REPO + os.sep):
        raise EnvError("pystruct imported from %s" % pystruct.__file__)
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    return pystruct


def _from_wheels():
    import glob
    import zipfile
    dst = os.path.join(VERIF, ".build", "hyp")
    if not os.path.isdir(dst):
        os.makedirs(dst)
        for pat in ("hypothesis-*cp312*.whl", "hypothesis-*.whl",
                    "sortedcontainers-*.whl", "attrs-*.whl"):
            for w in glob.glob("/opt/veriftools/wheels/" + pat)[:1]:
                zipfile.ZipFile(w).extractall(dst)
    sys.path.append(dst)
    import hypothesis  # noqa: F401
