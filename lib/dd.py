"""The decision-diagram package of /repo behind lib/ddmon.cpp, with a dense reference next to every diagram (line 0 least significant)."""
from __future__ import annotations

import os
import pathlib
import select
import subprocess
import tempfile
import time

import numpy as np

from lib import boot, gen, ref

HERE = pathlib.Path(__file__).resolve().parent
PLAIN = ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]


def build(scratch: pathlib.Path, flags: list[str], cxx: str = "g++") -> pathlib.Path:
    out = pathlib.Path(tempfile.mkdtemp(prefix="dd_", dir=scratch)) / "ddmon"
    cmd = [cxx, "-std=c++17", "-w", *flags, f"-I{boot.REPO / 'include'}", str(HERE / "ddmon.cpp"), "-o", str(out)]
    r = subprocess.run(cmd, capture_output=True, text=True, check=False, timeout=600)
    if r.returncode != 0:
        msg = "the decision-diagram package does not compile:\n" + r.stderr[-3000:]
        raise RuntimeError(msg)
    return out


class Died(Exception):
    pass


class Mon:
    """A running monitor program."""

    def __init__(self, exe: str, wrap: list[str] | None = None) -> None:
        self.err = tempfile.TemporaryFile()
        env = {**os.environ, "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77", "UBSAN_OPTIONS": "print_stacktrace=1"}
        self.p = subprocess.Popen([*(wrap or []), exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=env)
        self.log: list[str] = []
        self.viol: list[str] = []

    def errors(self) -> str:
        self.err.seek(0)
        return self.err.read().decode(errors="replace")

    def died(self) -> None:
        rc = self.p.wait(60)
        e = self.errors()
        keep = [x for x in e.splitlines() if "ERROR" in x or "error" in x or "ssertion" in x or x.strip().startswith("#")][:12]
        msg = f"the package crashed (exit {rc}) on: {self.log[-1][:200] if self.log else ''}\n" + "\n".join(keep or e.splitlines()[-8:])
        raise Died(msg)

    def __call__(self, *words):  # noqa: ANN002, ANN204
        """Run one command: the numbers it gave, or ("E", text) if it threw."""
        line = " ".join(repr(float(w)) if isinstance(w, (float, np.floating)) else str(w) for w in words)
        self.log.append(line)
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self.died()
        res = None
        while True:
            s = self.p.stdout.readline()
            if not s:
                self.died()
            if s == ".\n":
                return res
            if s[0] == "V":
                self.viol.append(s[2:].strip())
            elif s[0] == "E":
                res = ("E", s[2:].strip())
            elif s[0] == "R":
                x = np.array(s.split()[2:], dtype=float)
                res = x[0::2] + 1j * x[1::2]

    def close(self) -> str:
        """End the program; returns what sanitizers said at exit."""
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        end = time.time() + 120
        while self.p.poll() is None and time.time() < end:
            r, _, _ = select.select([self.p.stdout], [], [], 0.5)
            if r and not self.p.stdout.read(65536):
                break
        try:
            self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        if self.p.returncode != 0:
            self.died()
        return self.errors()

    def kill(self) -> None:
        self.p.kill()
        self.p.wait()


def embed(ds, m, target, controls):
    """Dense matrix of a gate on a line; digits with line 0 least significant."""
    n = int(np.prod(ds))
    rev = list(reversed(ds))
    k = len(ds)
    out = np.zeros((n, n), dtype=complex)
    for i, st in enumerate(np.ndindex(*rev)):
        if all(st[k - 1 - q] == lev for q, lev in controls):
            for r in range(ds[target]):
                to = list(st)
                to[k - 1 - target] = r
                out[np.ravel_multi_index(to, rev), i] += m[r, st[k - 1 - target]]
        else:
            out[i, i] += 1
    return out


def basis(ds, levels):
    rev = list(reversed(ds))
    v = np.zeros(int(np.prod(ds)), dtype=complex)
    v[np.ravel_multi_index(list(reversed(levels)), rev)] = 1
    return v


def csum(ds, c, t, dag):
    u = np.zeros((int(np.prod(ds)),) * 2, dtype=complex)
    rev = list(reversed(ds))
    k = len(ds)
    for i, st in enumerate(np.ndindex(*rev)):
        to = list(st)
        to[k - 1 - t] = (st[k - 1 - t] + st[k - 1 - c]) % ds[t]
        u[np.ravel_multi_index(to, rev), i] = 1
    return u.T.copy() if dag else u


LEVELS2 = {"r", "rz", "rh", "embx"}
GENERAL = ["i", "pi", "h", "x", "xdag", "z", "s", "r", "rz", "rh", "virtrz", "embx"]
QUBIT = ["y", "sdag", "t", "tdag", "sx", "sxdag", "v", "vdag", "rx", "ry", "rzq", "phase", "u2", "u3"]
QUTRIT = ["u301", "pi02", "pi02dag", "x01", "z01"]


def named(rng, d):  # noqa: ANN001
    """A gate matrix of the package: (words of the command, dense matrix)."""
    g = str(rng.choice(GENERAL + (QUBIT if d == 2 else QUTRIT if d == 3 else [])))
    while g == "s" and not ref.is_prime(d):
        g = str(rng.choice(GENERAL))
    a, b = gen.angle(rng), gen.angle(rng, 7)
    l, h = sorted(gen.ints(rng.permutation(d)[:2])) if d > 2 else (0, 1)
    if g in {"pi", "virtrz"}:
        l = int(rng.integers(d))
    def u3(la, ph, th):
        c, x = np.cos(th / 2), np.sin(th / 2)
        return np.array([[c, -np.exp(1j * la) * x], [np.exp(1j * ph) * x, np.exp(1j * (la + ph)) * c]])

    pi02 = np.array([[0, 0, -1], [0, 1, 0], [1, 0, 0]])
    q = {
        "u2": u3(a, b, np.pi / 2), "u3": u3(a, b, 0.7 * a - b), "u301": ref.two_level(3, 0, 1, u3(a, b, 0.7 * a - b)) if d == 3 else None,
        "pi02": pi02, "pi02dag": pi02.T, "x01": np.eye(3)[[1, 0, 2]], "z01": np.diag([1, -1, 1]),
        "y": np.array([[0, -1j], [1j, 0]]), "sdag": np.diag([1, -1j]), "t": np.diag([1, np.exp(0.25j * np.pi)]), "tdag": np.diag([1, np.exp(-0.25j * np.pi)]),
        "sx": 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]), "sxdag": 0.5 * np.array([[1 - 1j, 1 + 1j], [1 + 1j, 1 - 1j]]),
        "v": np.sqrt(0.5) * np.array([[1, -1j], [-1j, 1]]), "vdag": np.sqrt(0.5) * np.array([[1, 1j], [1j, 1]]),
        "rx": ref.r2(a, 0), "ry": ref.r2(a, np.pi / 2), "rzq": np.diag([np.exp(-0.5j * a), np.exp(0.5j * a)]), "phase": np.diag([1, np.exp(1j * a)]),
    }
    op = {"g": g, "t": [0], "p": None}
    if g in q:
        m = q[g]
    elif g == "i":
        m = np.eye(d)
    elif g == "pi":
        m = np.zeros((d, d))
        m[l, l] = 1
    elif g == "xdag":
        m = ref.base_matrix({"g": "x", "t": [0]}, [d]).T
    elif g == "embx":
        m = ref.two_level(d, l, h, np.array([[0, -1j * np.exp(-1j * a)], [-1j * np.exp(1j * a), 0]]))
    else:
        op["p"] = {"r": [l, h, a, b], "rz": [l, h, a], "rh": [l, h], "virtrz": [l, a]}.get(g)
        m = ref.base_matrix(op, [d])
    return [g, a, b, l, h], np.asarray(m, dtype=complex)


def named_matrix(g, d):  # noqa: ANN001
    return np.asarray(ref.base_matrix({"g": g, "t": [0]}, [d]), dtype=complex)


def matrix(rng, d):  # noqa: ANN001
    """An arbitrary matrix: (words of the command, dense matrix)."""
    t = rng.random()
    if t < 0.4:
        m = ref.haar(d, int(rng.integers(1 << 30)))
    elif t < 0.55:
        m = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    elif t < 0.7:
        m = np.zeros((d, d), dtype=complex)
        m[int(rng.integers(d)), int(rng.integers(d))] = rng.choice([1, -1, 1j, 0.5])
    elif t < 0.85:
        m = np.diag(np.exp(1j * rng.uniform(0, 6, d)))
    else:
        m = np.eye(d)[gen.ints(rng.permutation(d))].astype(complex) * rng.choice([1, -1, 1j])
    words = ["mat"]
    for x in np.asarray(m, dtype=complex).reshape(-1):
        words += [float(x.real), float(x.imag)]
    return words, np.asarray(m, dtype=complex)
