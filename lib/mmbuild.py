"""Serve mmcore from /repo's working tree, compiling what is stale.

The Python files of mmcore are imported straight from /repo.  Its Cython extensions are *never* taken from the .so files
lying in /repo (they may be older than the sources): a meta-path finder compiles every extension the check imports from
the sources as they are now, in a scratch mirror outside /repo, and keeps the result in a cache keyed by the content of
the .pyx file, of everything it cimports or includes, and of the flags.  Comment lines and blank lines at the end of a
source do not count.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MMV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("MMV_CACHE", os.path.join(VERIF, ".cache"))
VARIANT = os.environ.get("MMV_VARIANT", "fast")  # fast | asan
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
GENERATED = b"/* Generated by Cython"

EXTENSIONS = {  # name -> language; the source is the module's path (see /repo/build.py)
    "mmcore.numeric.newton.cnewton": "c",
    "mmcore.numeric.algorithms.moller": "c",
    "mmcore.numeric._aabb": "c",
    "mmcore.geom.nurbs": "c++",
    "mmcore.numeric.binom": "c",
    "mmcore.numeric.algorithms.cygjk": "c++",
    "mmcore.numeric.vectors": "c",
    "mmcore.geom.curves.deboor": "c",
    "mmcore.geom.primitives": "c",
    "mmcore.numeric.calgorithms": "c",
    "mmcore.geom.parametric": "c",
    "mmcore.geom.curves._nurbs": "c",
    "mmcore.numeric.routines._routines": "c",
    "mmcore.geom.curves._cubic": "c",
    "mmcore.geom.implicit.tree.cbuild_tree3d": "c",
    "mmcore.numeric.plane.cplane": "c",
    "mmcore.numeric.algorithms.quicksort": "c",
    "mmcore.numeric.intersection.ssx._ssi": "c",
    "mmcore.geom.evaluator.surface_evaluator": "c",
    "mmcore.geom.surfaces.ellipsoid": "c",
    "mmcore.numeric.integrate.romberg": "c",
    "mmcore.topo.mesh.triangle.core": "c",
}
DIRECTIVES = dict(
    boundscheck=False, wraparound=False, cdivision=True, nonecheck=False, overflowcheck=False,
    initializedcheck=False, embedsignature=True, language_level="3str",
)
BASE_FLAGS = ["-fPIC", "-fwrapv", "-fno-strict-overflow", "-DNDEBUG", "-w", "-DNPY_NO_DEPRECATED_API=NPY_2_0_API_VERSION"]
VARIANT_FLAGS = {
    "fast": ["-O1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-shared-libasan"],
}
TRIANGLE = ["-DVOID=void", "-DREAL=double", "-DNO_TIMER=1", "-DTRILIBRARY=1", "-DANSI_DECLARATORS=1"]


def src(rel):
    return os.path.join(REPO, rel)


def pyx_of(name):
    return name.replace(".", "/") + ".pyx"


def normal(path):
    """The content of a source, without the comment and blank lines at its end; None for a file Cython generated."""
    with open(path, "rb") as f:
        data = f.read()
    if data.startswith(GENERATED):
        return None
    lines = data.split(b"\n")
    marks = (b"#",) if path.endswith((".pyx", ".pxd", ".pxi")) else (b"//",)
    while lines and (not lines[-1].strip() or lines[-1].strip().startswith(marks)):
        lines.pop()
    return b"\n".join(lines)


_CIMPORT = re.compile(r"^[ \t]*cimport[ \t]+([^\n#]+)", re.M)
_FROM = re.compile(r"^[ \t]*from[ \t]+([\w.]+)[ \t]+cimport[ \t]*(\([^)]*\)|[^\n#]+)", re.M)
_EXTERN = re.compile(r"cdef[ \t]+extern[ \t]+from[ \t]+[\"']([^\"']+)[\"']")
_INCLUDE = re.compile(r"^[ \t]*#?[ \t]*include[ \t]+[\"']([^\"']+)[\"']", re.M)


def closure(rel, seen=None):
    """Every repository file the extension built from `rel` depends on (repository-relative paths)."""
    seen = set() if seen is None else seen
    if rel in seen or not os.path.isfile(src(rel)):
        return seen
    data = normal(src(rel))
    if data is None:
        return seen
    seen.add(rel)
    here = os.path.dirname(rel)
    text = data.decode("utf-8", "replace")
    names = set(_INCLUDE.findall(text))
    if rel.endswith((".pyx", ".pxd", ".pxi")):
        names |= set(_EXTERN.findall(text))
        closure(os.path.splitext(rel)[0] + ".pxd", seen)
        mods = set()
        for group in _CIMPORT.findall(text):
            mods |= {m.split(" as ")[0].strip() for m in group.split(",")}
        for package, group in _FROM.findall(text):
            mods.add(package)
            mods |= {package + "." + m.split(" as ")[0].strip() for m in group.strip("()").split(",")}
        for m in mods:
            if m.startswith("mmcore"):
                base = m.replace(".", "/")
                closure(base + ".pxd", seen)
                closure(base + "/__init__.pxd", seen)
    for n in names:
        for d in (here, "", "mmcore/topo/mesh/triangle-c", "mmcore/numeric/algorithms", "mmcore/geom"):
            cand = os.path.normpath(os.path.join(d, n))
            if os.path.isfile(src(cand)):
                closure(cand, seen)
                break
    return seen


def deps(name):
    found = closure(pyx_of(name))
    if name == "mmcore.topo.mesh.triangle.core":
        closure("mmcore/topo/mesh/triangle-c/triangle.c", found)
        closure("mmcore/topo/mesh/triangle-c/triangle.h", found)
    return found


_toolchain = None


def toolchain():
    global _toolchain
    if _toolchain is None:
        import importlib.metadata as md

        _toolchain = f"{sys.version}|{md.version('cython')}|{md.version('numpy')}|{DIRECTIVES}|{BASE_FLAGS}|{VARIANT_FLAGS[VARIANT]}|1"
    return _toolchain


def key(name):
    h = hashlib.sha256((name + VARIANT + toolchain()).encode())
    for rel in sorted(deps(name)):
        h.update(rel.encode() + b"\0" + (normal(src(rel)) or b"") + b"\0")
    return h.hexdigest()[:32]


def target(name):
    return os.path.join(CACHE, VARIANT, key(name), name.rsplit(".", 1)[1] + SUFFIX)


def mirror(scratch):
    for dirpath, _, names in os.walk(src("mmcore")):
        rel = os.path.relpath(dirpath, REPO)
        for n in names:
            if n.endswith((".pyx", ".pxd", ".pxi", ".h", ".hpp", ".c", ".cpp")) or n == "__init__.py":
                p = os.path.join(dirpath, n)
                with open(p, "rb") as f:
                    data = f.read()
                if data.startswith(GENERATED):
                    continue
                os.makedirs(os.path.join(scratch, rel), exist_ok=True)
                with open(os.path.join(scratch, rel, n), "wb") as f:
                    f.write(data)


class BuildError(RuntimeError):
    pass


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def _compile(name, scratch, out):
    import numpy

    cxx = EXTENSIONS[name] == "c++"
    pyx = pyx_of(name)
    c = os.path.splitext(pyx)[0] + (".cpp" if cxx else ".c")
    cmd = [sys.executable, "-m", "cython", "-o", c] + (["--cplus"] if cxx else [])
    for k, v in DIRECTIVES.items():
        cmd += ["-X", f"{k}={v}"]
    _run(cmd + [pyx], scratch)
    if VARIANT == "asan":
        cc = ["clang++", "-std=c++17"] if cxx else ["clang"]
    else:
        cc = ["g++", "-std=c++17"] if cxx else ["gcc"]
    inc = [scratch, numpy.get_include(), sysconfig.get_paths()["include"]]
    inc += [os.path.join(scratch, d) for d in sorted({os.path.dirname(d) for d in deps(name)})]
    cmd = cc + BASE_FLAGS + VARIANT_FLAGS[VARIANT] + ["-I" + i for i in inc] + ["-shared", "-o", out + ".tmp"]
    if name == "mmcore.topo.mesh.triangle.core":
        cmd += TRIANGLE + ["-I" + os.path.join(scratch, "mmcore/topo/mesh/triangle-c"), "mmcore/topo/mesh/triangle-c/triangle.c"]
    _run(cmd + [c, "-lm"], scratch)
    os.replace(out + ".tmp", out)


def build(names):
    """Build the stale ones among `names`, in parallel; {name: error} for those that did not build."""
    stale = [(n, target(n)) for n in names]
    stale = [(n, t) for n, t in stale if not os.path.exists(t)]
    if not stale:
        return {}
    os.makedirs(CACHE, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="build-", dir=CACHE)
    errors = {}
    try:
        mirror(scratch)

        def one(item):
            n, t = item
            try:
                os.makedirs(os.path.dirname(t), exist_ok=True)
                _compile(n, scratch, t)
            except Exception as e:
                errors[n] = e

        with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            list(pool.map(one, stale))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return errors


class Finder:
    def find_spec(self, name, path=None, target_=None):
        if name not in EXTENSIONS:
            return None
        out = target(name)
        if not os.path.exists(out):
            near = {d for d in deps(name) if d.endswith(".pxd")}
            group = [n for n in EXTENSIONS if n == name or pyx_of(n)[:-3] + "pxd" in near]
            errors = build(group)
            if name in errors:
                raise errors[name]
        loader = importlib.machinery.ExtensionFileLoader(name, out)
        return importlib.util.spec_from_file_location(name, out, loader=loader)


def install():
    """Make `import mmcore` mean /repo's working tree."""
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    assert not any(m == "mmcore" or m.startswith("mmcore.") for m in sys.modules)
    sys.path[:] = [REPO] + [p for p in sys.path if p not in (REPO, "")]
    sys.meta_path.insert(0, Finder())
    import warnings

    warnings.simplefilter("ignore")
    import mmcore

    assert os.path.realpath(mmcore.__file__).startswith(os.path.realpath(REPO) + os.sep), mmcore.__file__


def main():
    errors = build(list(EXTENSIONS))
    for n, e in errors.items():
        print(n, e, file=sys.stderr)
    return 1 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
