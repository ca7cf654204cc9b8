"""Builds the C++ extension from /repo's working tree with the shim, and loads it as mqt.qudits._qudits."""
from __future__ import annotations

import ctypes
import gc
import hashlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import tempfile
import types

REPO = os.environ.get("DST_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
LIB = None  # ctypes handle


def _sources():
    out = []
    for top in ("src/python", "include"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".c", ".cc", ".inl"))]
    for top in ("src",):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            if "python" in d or "mqt" in d:
                continue
            out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".hpp", ".h"))]
    return sorted(set(out))


def cache_dir():
    d = os.path.join(tempfile.gettempdir(), f"dst-native.{os.getuid()}")
    os.makedirs(d, exist_ok=True)
    return d


def build():
    """Return the path of the instrumented extension, compiling it when these sources were not compiled yet."""
    h = hashlib.sha256()
    srcs = _sources()
    for p in [*srcs, os.path.join(HERE, "shim.hpp"), os.path.join(HERE, "shim.cpp")]:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(sys.version.encode())
    out = os.path.join(cache_dir(), f"_qudits-{h.hexdigest()[:24]}.so")
    if os.path.exists(out):
        return out
    import pybind11
    import sysconfig

    inc = ["-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"], f"-I{REPO}/include"]
    extra_cpp = [p for p in srcs if p.endswith((".cpp", ".cc", ".c"))]
    tmp = f"{out}.{os.getpid()}.tmp"
    base = ["g++", "-O1", "-DNDEBUG", "-std=c++17", "-fPIC", "-w"]
    objs = []
    procs = []
    for i, p in enumerate([*extra_cpp, os.path.join(HERE, "shim.cpp")]):
        o = f"{tmp}.{i}.o"
        objs.append(o)
        cmd = [*base, "-c", p, "-o", o]
        cmd += inc
        if p in extra_cpp:
            cmd += ["-include", os.path.join(HERE, "shim.hpp"), "-fvisibility=hidden"]
        procs.append(subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True))
    for pr in procs:
        err = pr.communicate()[1]
        if pr.returncode != 0:
            raise RuntimeError("native build failed:\n" + err[-4000:])
    r = subprocess.run([*base, "-shared", "-Wl,-Bsymbolic", "-o", tmp, *objs], capture_output=True, text=True, check=False)
    for o in objs:
        os.unlink(o)
    if r.returncode != 0:
        raise RuntimeError("native link failed:\n" + r.stderr[-4000:])
    os.replace(tmp, out)
    return out


_keep = []


def install(path):
    """Load the extension; random numbers and clock come from os.urandom and time.time_ns (looked up at call time)."""
    global LIB
    import time

    name = "mqt.qudits._qudits"
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    for k, v in vars(mod).items():
        if isinstance(v, types.ModuleType):
            sys.modules[f"{name}.{k}"] = v
    LIB = ctypes.PyDLL(path)
    rt, ct = ctypes.PYFUNCTYPE(ctypes.c_uint32), ctypes.PYFUNCTYPE(ctypes.c_int64)
    r = rt(lambda: int.from_bytes(os.urandom(4), "little"))
    c = ct(lambda: time.time_ns())
    _keep.extend((r, c))
    LIB.dst_set_callbacks(r, c)
    LIB.dst_alloc_arm.argtypes = [ctypes.c_int64, ctypes.c_int64]
    LIB.dst_alloc_count.restype = ctypes.c_int64
    LIB.dst_alloc_failed.restype = ctypes.c_int64
    LIB.dst_py_call.argtypes = [ctypes.py_object, ctypes.py_object, ctypes.c_int64, ctypes.c_int64]
    LIB.dst_py_call.restype = ctypes.py_object
    LIB.dst_py_count.restype = ctypes.c_int64
    LIB.dst_py_failed.restype = ctypes.c_int64
    real = mod.misim.state_vector_simulation

    def state_vector_simulation(*args, **kw):
        if kw or PY_FAIL["at"] is None:
            return real(*args, **kw)
        if PY_FAIL["skip"] > 0:
            PY_FAIL["skip"] -= 1
            return real(*args)
        gc.collect()  # empties the interpreter's free lists, so that the n-th allocation is the same one in every execution
        at, sticky = PY_FAIL["at"], PY_FAIL["sticky"]
        PY_FAIL["at"] = None
        try:
            return LIB.dst_py_call(real, args, at, sticky)
        finally:
            PY_FAIL["count"] += int(LIB.dst_py_count())
            PY_FAIL["failed"] += int(LIB.dst_py_failed())

    mod.misim.state_vector_simulation = state_vector_simulation
    return mod


# the next call but `skip` of the native function counts its allocations by the interpreter, and the one with number `at` fails (-1: none)
PY_FAIL = {"at": None, "sticky": 0, "skip": 0, "count": 0, "failed": 0}


def py_arm(at, sticky=0, skip=0):
    PY_FAIL.update(at=at, sticky=sticky, skip=skip, count=0, failed=0)


def install_stub():
    """For checks that never reach native code."""
    name = "mqt.qudits._qudits"
    mod, sub = types.ModuleType(name), types.ModuleType(name + ".misim")

    def state_vector_simulation(circuit, noise_model):
        raise RuntimeError("native simulator not built for this check")

    sub.state_vector_simulation = state_vector_simulation
    mod.misim = sub
    sys.modules[name] = mod
    sys.modules[name + ".misim"] = sub


def boot(native):
    """Import the code under test from /repo/src (never an installed copy)."""
    sys.meta_path[:] = [f for f in sys.meta_path if not type(f).__name__.startswith("ScikitBuild")]
    src = os.path.join(REPO, "src")
    sys.path[:] = [src] + [p for p in sys.path if os.path.realpath(p or ".") not in (os.path.realpath(src), "/repo/src")]
    for name in [m for m in sys.modules if m == "mqt" or m.startswith("mqt.")]:
        del sys.modules[name]
    import mqt  # noqa: F401

    if native:
        install(build())
    else:
        install_stub()
    import pkgutil

    import mqt.qudits

    assert os.path.realpath(mqt.qudits.__file__).startswith(os.path.realpath(REPO)), mqt.qudits.__file__
    for m in pkgutil.walk_packages([os.path.join(REPO, "src/mqt/qudits")], "mqt.qudits."):
        if "_qudits." not in m.name and not m.name.endswith("._qudits"):
            importlib.import_module(m.name)
