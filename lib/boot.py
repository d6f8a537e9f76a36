"""Make `import mqt.qudits` load /repo's current working tree, with bindings this run compiled itself."""
from __future__ import annotations

import hashlib
import importlib.util
import os
import pathlib
import subprocess
import sys
import sysconfig
import tempfile
import types

REPO = pathlib.Path("/repo")
SRC = REPO / "src"


def compiler_flags() -> list[str]:
    import pybind11

    return [
        "-std=c++17",
        "-fPIC",
        "-w",
        f"-I{REPO / 'include'}",
        f"-I{sysconfig.get_path('include')}",
        f"-I{pybind11.get_include()}",
    ]


def tree_hash() -> str:
    h = hashlib.sha256()
    for top in (REPO / "include", SRC / "python"):
        for f in sorted(top.rglob("*")):
            if f.is_file():
                h.update(str(f).encode())
                h.update(f.read_bytes())
    return h.hexdigest()[:16]


def build_bindings(opt: str = "-O1", extra: list[str] | None = None, cxx: str = "g++") -> pathlib.Path:
    """Compile /repo's bindings into a fresh scratch directory outside /repo."""
    out = pathlib.Path(tempfile.mkdtemp(prefix="vb_", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))) / "_qudits.so"
    srcs = [str(f) for f in sorted((SRC / "python").glob("*.cpp"))]
    extra = ["-DNDEBUG"] if extra is None else extra
    cmd = [cxx, opt, "-shared", *compiler_flags(), *extra, *srcs, "-o", str(out)]
    r = subprocess.run(cmd, capture_output=True, text=True, check=False, timeout=600)
    if r.returncode != 0:
        msg = "the bindings do not compile:\n" + r.stderr[-3000:]
        raise RuntimeError(msg)
    return out


class _Finder:
    def __init__(self, so: pathlib.Path | None) -> None:
        self.so = so

    def find_spec(self, name, path=None, target=None):  # noqa: ANN001, ARG002
        if name == "mqt.qudits._qudits" and self.so is not None:
            return importlib.util.spec_from_file_location(name, str(self.so))
        return None


def activate(so: pathlib.Path | None) -> None:
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in type(f).__module__.lower()]
    sys.path.insert(0, str(SRC))
    sys.meta_path.insert(0, _Finder(so))
    if so is None:

        def unavailable(*_a: object, **_k: object) -> None:
            msg = "this check does not build the bindings"
            raise RuntimeError(msg)

        stub = types.ModuleType("mqt.qudits._qudits")
        stub.__path__ = []
        sub = types.ModuleType("mqt.qudits._qudits.misim")
        sub.state_vector_simulation = unavailable
        stub.misim = sub
        sys.modules["mqt.qudits._qudits"] = stub
        sys.modules["mqt.qudits._qudits.misim"] = sub
    if not (SRC / "mqt/qudits/_version.py").exists():
        v = types.ModuleType("mqt.qudits._version")
        v.version = v.__version__ = "0"
        v.version_tuple = (0,)
        sys.modules["mqt.qudits._version"] = v
    import mqt.qudits

    if not mqt.qudits.__file__.startswith(str(SRC)):
        msg = f"imported {mqt.qudits.__file__} instead of {SRC}"
        raise RuntimeError(msg)
