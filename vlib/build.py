"""Make a private, importable copy of the code under test from /repo's working tree.

Nothing is ever written in /repo.  The Cython extensions are taken from /repo only when the
build stamp left by the build script proves that they were compiled from the present sources;
otherwise they are compiled afresh in the scratch copy.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def _digest(root, paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        fp = os.path.join(root, p)
        h.update(open(fp, "rb").read() if os.path.exists(fp) else b"missing")
    return h.hexdigest()


def _rel(root, pattern):
    return sorted(os.path.relpath(p, root) for p in glob.glob(os.path.join(root, pattern), recursive=True))


def prepare(scratch):
    """Copy /repo's package into `scratch`/src and put it first on sys.path. Returns the path."""
    src = os.path.join(scratch, "src")
    os.makedirs(src)

    def ignore(d, names):
        return [n for n in names if n.endswith((".c", ".so", ".pyc", ".o")) or n == "__pycache__"]
    shutil.copytree(os.path.join(REPO, "mass"), os.path.join(src, "mass"), ignore=ignore, symlinks=True)
    for f in ("setup.py", "setup.cfg", "pyproject.toml", "README.md"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy2(os.path.join(REPO, f), src)
    if os.path.isdir(os.path.join(REPO, "bin")):
        shutil.copytree(os.path.join(REPO, "bin"), os.path.join(src, "bin"), ignore=ignore)
    vf = os.path.join(src, "mass", "_version.py")
    if not os.path.exists(vf):
        with open(vf, "w") as fp:
            fp.write("__version__ = version = '0.8.6'\n__version_tuple__ = version_tuple = (0, 8, 6)\n")

    common = ["setup.py"] + sorted(_rel(REPO, "mass/**/*.pxd") + _rel(REPO, "mass/**/*.pxi"))
    pyx = _rel(REPO, "mass/**/*.pyx")
    try:
        stamp = json.load(open(os.path.join(REPO, "build", "ext_cache.json")))
    except (OSError, ValueError):
        stamp = {}
    fresh = []
    for p in pyx:
        stem = p[:-4]
        sos = glob.glob(os.path.join(REPO, stem + ".*.so"))
        if len(sos) == 1 and stamp.get(stem) == _digest(REPO, common + [p]):
            shutil.copy2(sos[0], os.path.join(src, os.path.dirname(stem)))
        else:
            fresh.append(p)
    if fresh:
        _compile(src, fresh)
    sys.path.insert(0, src)
    return src


def _compile(src, fresh):
    env = dict(os.environ)
    env["SETUPTOOLS_SCM_PRETEND_VERSION"] = "0.8.6"
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
    log = os.path.join(src, "build_ext.log")
    # Compile only what is stale: present the others as already up to date by removing their sources
    # from the build list.
    script = (
        "import sys, numpy as np\n"
        "from setuptools import setup\n"
        "from setuptools.extension import Extension\n"
        "from Cython.Build import cythonize\n"
        "names = sys.argv[1].split(',')\n"
        "sys.argv = ['setup.py', '-q', 'build_ext', '--inplace', '-j', '4']\n"
        "ex = [Extension(n, sources=[n.replace('.', '/') + '.pyx'], include_dirs=[np.get_include()]) for n in names]\n"
        "setup(name='mass', ext_modules=cythonize(ex, compiler_directives={'language_level': '3'}))\n")
    names = ",".join(p[:-4].replace("/", ".") for p in fresh)
    # A directory of its own without pyproject/setup.cfg influence is not possible for in-place builds,
    # so hide those two files while compiling.
    hidden = []
    for f in ("pyproject.toml", "setup.cfg"):
        fp = os.path.join(src, f)
        if os.path.exists(fp):
            os.rename(fp, fp + ".hidden")
            hidden.append(fp)
    try:
        with open(log, "wb") as fp:
            rc = subprocess.call([sys.executable, "-c", script, names], cwd=src, env=env, stdout=fp, stderr=fp)
    finally:
        for fp in hidden:
            os.rename(fp + ".hidden", fp)
    missing = [p for p in fresh if not glob.glob(os.path.join(src, p[:-4] + ".*.so"))]
    if rc != 0 or missing:
        sys.stderr.write(open(log, errors="replace").read()[-4000:])
        raise RuntimeError(f"cannot compile the extensions {fresh}")


