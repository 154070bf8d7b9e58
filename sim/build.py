"""Compile /repo's current .pyx files into a cache outside /repo, keyed by their content.

The checks must judge what the working tree does now, and nobody runs build.sh before a check, so the
.so files lying in /repo may be stale.  Each extension is built in a scratch directory from a copy of its
.pyx and stored as /verif/.build/<key>/<fullname>.so; sources are compiled once per content.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.environ.get("VERIF_BUILD_CACHE", os.path.join(os.path.dirname(HERE), ".build"))
EXTENSIONS = ("mass.core.cython_channel", "mass.core.analysis_algorithms",
              "mass.mathstat.robust", "mass.mathstat.entropy")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX") or ".so"


def _pyx(name):
    return os.path.join(REPO, *name.split(".")) + ".pyx"


def _pxds():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "mass")):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".pxd", ".pxi"))]
    return out


def key_of(name):
    import Cython
    import numpy
    h = hashlib.sha256()
    for part in (sys.version, Cython.__version__, numpy.__version__, name):
        h.update(part.encode())
    for path in [_pyx(name)] + _pxds():
        with open(path, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def so_path(name):
    return os.path.join(CACHE, key_of(name), name + SUFFIX)


def build_one(name):
    """Build one extension if its exact source has not been built yet; return the .so path, or None
    if the extension has no .pyx any more (it may have become plain Python)."""
    if not os.path.exists(_pyx(name)):
        return None
    target = so_path(name)
    if os.path.exists(target):
        return target
    import numpy
    tmp = tempfile.mkdtemp(prefix="verif_ext_")
    try:
        # Keep the package structure so that Cython computes the right module name.
        parts = name.split(".")
        pkg = tmp
        for p in parts[:-1]:
            pkg = os.path.join(pkg, p)
            os.mkdir(pkg)
            open(os.path.join(pkg, "__init__.py"), "w").close()
        shutil.copy(_pyx(name), pkg)
        for p in _pxds():
            rel = os.path.relpath(p, REPO)
            os.makedirs(os.path.dirname(os.path.join(tmp, rel)), exist_ok=True)
            shutil.copy(p, os.path.join(tmp, rel))
        setup = os.path.join(tmp, "setup_ext.py")
        with open(setup, "w") as f:
            f.write(
                "from setuptools import setup\nfrom setuptools.extension import Extension\n"
                "from Cython.Build import cythonize\n"
                f"setup(name='x', packages=[], ext_modules=cythonize([Extension({name!r}, [{'/'.join(parts) + '.pyx'!r}],"
                f" include_dirs=[{numpy.get_include()!r}])], compiler_directives={{'language_level': '3'}}))\n")
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        r = subprocess.run([sys.executable, setup, "-q", "build_ext", "--build-lib", os.path.join(tmp, "out"),
                            "--build-temp", os.path.join(tmp, "obj")], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        built = os.path.join(tmp, "out", *parts[:-1], parts[-1] + SUFFIX)
        if r.returncode != 0 or not os.path.exists(built):
            raise RuntimeError(f"building {name} failed:\n{r.stdout[-4000:]}")
        os.makedirs(os.path.dirname(target), exist_ok=True)
        part = target + f".{os.getpid()}.tmp"
        shutil.copy(built, part)
        os.replace(part, target)
        return target
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_all():
    with ThreadPoolExecutor(4) as ex:
        return dict(zip(EXTENSIONS, ex.map(build_one, EXTENSIONS)))


if __name__ == "__main__":
    for k, v in build_all().items():
        print(k, v)
