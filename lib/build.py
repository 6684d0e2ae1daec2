"""Builds tbplas from /repo's *current* working tree, outside /repo.

The native extensions (Fortran through f2py, Cython) are compiled with the
project's own CMakeLists.txt and the options of /opt/vp/build.sh.  Build trees
are cached in /verif/.build under the content hash of everything that goes into
the build, so a change of one byte of native code gives a new build, and a
change back finds the old one.  The Python sources are copied afresh each time.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
PY = "/opt/venv/bin/python"
CYTHON = "/opt/venv/bin/cython"
NATIVE = os.path.join(VERIF, "native")
# checks which run on an instrumented build
VARIANT = {"C23": "trace"}


class BuildError(Exception):
    pass


def _native_files():
    files = [os.path.join(REPO, "CMakeLists.txt"),
             os.path.join(REPO, "tbplas", "__init__.py")]
    for sub in ("fortran", "cython"):
        root = os.path.join(REPO, "tbplas", sub)
        for base, dirs, names in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for n in sorted(names):
                if not n.endswith((".so", ".pyc")):
                    files.append(os.path.join(base, n))
    return files


def _hash(variant):
    h = hashlib.sha256()
    if variant:
        h.update(variant.encode() + b"\0")
        for n in ("vtrace.c", "gfortran"):
            with open(os.path.join(NATIVE, n), "rb") as fh:
                h.update(fh.read() + b"\0")
    for f in _native_files():
        rel = os.path.relpath(f, REPO)
        h.update(rel.encode() + b"\0")
        with open(f, "rb") as fh:
            data = fh.read()
        h.update(str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()[:24]


def _run(cmd, cwd, log, extra=None):
    env = dict(os.environ)
    env.update(extra or {})
    env.pop("PYTHONPATH", None)
    env["PATH"] = ("/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:"
                   "/usr/bin:/sbin:/bin")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    log.append("$ " + " ".join(cmd) + "\n" + p.stdout)
    if p.returncode != 0:
        raise BuildError("\n".join(log)[-8000:])


def native(variant=None):
    """Return the directory which holds the freshly built extensions."""
    key = _hash(variant)
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, key)
    ok = os.path.join(dest, "OK")
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ok):
            return dest
        # keep the cache small: at most 6 old builds
        old = sorted((d for d in os.listdir(CACHE)
                      if os.path.exists(os.path.join(CACHE, d, "OK"))),
                     key=lambda d: os.path.getmtime(os.path.join(CACHE, d, "OK")))
        for d in old[:-6]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        work = tempfile.mkdtemp(prefix="vp_build_")
        try:
            src, bld, inst = (os.path.join(work, x) for x in ("s", "b", "i"))
            os.makedirs(os.path.join(src, "tbplas"))
            os.makedirs(bld)
            for f in _native_files():
                t = os.path.join(src, os.path.relpath(f, REPO))
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(f, t)
            log = []
            fc, extra = "gfortran", {}
            if variant == "trace":
                obj = os.path.join(work, "vtrace.o")
                _run(["gcc", "-O2", "-fPIC", "-w", "-c", os.path.join(NATIVE, "vtrace.c"),
                      "-o", obj], work, log)
                fc, extra = os.path.join(NATIVE, "gfortran"), {"VT_RUNTIME": obj}
            _run(["cmake", "-S", src, "-B", bld, "-G", "Ninja",
                  "--log-level=NOTICE", "-DSKBUILD_PROJECT_NAME=tbplas",
                  "-DCMAKE_BUILD_TYPE=Release", f"-DPython_EXECUTABLE={PY}",
                  f"-DPYTHON_EXECUTABLE={PY}", f"-DCYTHON={CYTHON}",
                  "-DUSE_INDEX64=OFF", "-DUSE_MKL=OFF",
                  "-DCMAKE_C_COMPILER=gcc", f"-DCMAKE_Fortran_COMPILER={fc}",
                  "-DCMAKE_C_FLAGS=",
                  "-DCMAKE_Fortran_FLAGS=-cpp -fopenmp -fno-second-underscore"],
                 work, log, extra)
            _run(["cmake", "--build", bld], work, log, extra)
            _run(["cmake", "--install", bld, "--prefix", inst], work, log)
            os.makedirs(dest)
            for sub in ("fortran", "cython"):
                os.makedirs(os.path.join(dest, sub))
                root = os.path.join(inst, "tbplas", sub)
                for n in os.listdir(root):
                    if n.endswith(".so"):
                        shutil.copyfile(os.path.join(root, n),
                                        os.path.join(dest, sub, n))
            open(ok, "w").close()
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return dest


def assemble(target, pid=None):
    """Put a complete importable tbplas package into directory `target`."""
    nat = native(VARIANT.get(pid))
    pkg = os.path.join(target, "tbplas")
    shutil.copytree(os.path.join(REPO, "tbplas"), pkg,
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    for sub in ("fortran", "cython"):
        for n in os.listdir(os.path.join(nat, sub)):
            shutil.copyfile(os.path.join(nat, sub, n), os.path.join(pkg, sub, n))
    return target


if __name__ == "__main__":
    try:
        print(native())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
