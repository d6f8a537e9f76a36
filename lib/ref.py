"""Reference model: dense qudit semantics written from the mathematical definitions only.

Nothing in this file imports mqt.qudits.  A circuit is a "spec":

    {"dims": [d0, d1, ...], "ops": [op, ...]}
    op = {"g": name, "t": [targets], "p": params, "c": [[idx...],[lev...]] | None, "dag": bool}

Line 0 is the most significant digit of the state index.
"""
from __future__ import annotations

import itertools

import numpy as np


def haar(d: int, seed: int) -> np.ndarray:
    """A random unitary; every fourth is of a special shape that generic ones never have."""
    rng = np.random.default_rng(seed)
    kind = seed % 20
    if kind in {1, 2}:  # close to the identity
        a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        w, v = np.linalg.eigh(a + a.conj().T)
        return (v * np.exp(1j * w * [0.003, 0.03][kind - 1])) @ v.conj().T
    if kind == 3:  # diagonal
        return np.diag(np.exp(1j * rng.choice([0, 0.003, 0.5, np.pi / 2, np.pi, -2.0], d)))
    if kind == 4:  # a permutation with phases
        return np.eye(d)[:, rng.permutation(d)] * np.exp(1j * rng.choice([0, np.pi / 2, np.pi, 1.0], d))
    if kind == 5:  # real
        return np.linalg.qr(rng.normal(size=(d, d)))[0].astype(complex)
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    q, r = np.linalg.qr(a)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def rand_state(n: int, seed: int) -> np.ndarray:
    rng = np.random.default_rng(seed)
    v = rng.normal(size=n) + 1j * rng.normal(size=n)
    return v / np.linalg.norm(v)


def two_level(d: int, a: int, b: int, m: np.ndarray) -> np.ndarray:
    u = np.eye(d, dtype=complex)
    u[a, a], u[a, b], u[b, a], u[b, b] = m[0, 0], m[0, 1], m[1, 0], m[1, 1]
    return u


def r2(theta: float, phi: float) -> np.ndarray:
    c, s = np.cos(theta / 2), np.sin(theta / 2)
    return np.array([[c, -1j * s * np.exp(-1j * phi)], [-1j * s * np.exp(1j * phi), c]])


def is_prime(n: int) -> bool:
    return n > 1 and all(n % k for k in range(2, n))


def gell(d: int, a: int, b: int, kind: str) -> np.ndarray:
    m = np.zeros((d, d), dtype=complex)
    if kind == "s":
        m[a, b] = m[b, a] = 1
    elif kind == "a":
        m[a, b], m[b, a] = -1j, 1j
    else:
        for j in range(b):
            m[j, j] = 1
        m[b, b] = -b
        m *= np.sqrt(2 / (b * (b + 1)))
    return m


def base_matrix(op: dict, dims: list[int]) -> np.ndarray:
    """Matrix of the operation on its targets, digits in the order of op["t"] (no controls, no dagger)."""
    g, t, p = op["g"], op["t"], op.get("p")
    ds = [dims[q] for q in t]
    d = ds[0]
    if g == "x":
        return np.roll(np.eye(d, dtype=complex), 1, axis=0)
    if g == "z":
        return np.diag(np.exp(2j * np.pi * np.arange(d) / d))
    if g == "h":
        k = np.arange(d)
        return np.exp(2j * np.pi * (np.outer(k, k) % d) / d) / np.sqrt(d)
    if g == "s":
        if d == 2:
            return np.diag([1, 1j])
        k = np.arange(d)
        return np.diag(np.exp(2j * np.pi * ((k * (k + 1) // 2) % d) / d))
    if g == "r":
        a, b = sorted(p[:2])
        return two_level(d, a, b, r2(p[2], p[3]))
    if g == "rz":
        a, b = sorted(p[:2])
        return two_level(d, a, b, np.diag([np.exp(-0.5j * p[2]), np.exp(0.5j * p[2])]))
    if g == "rh":
        a, b = sorted(p[:2])
        return two_level(d, a, b, 1j / np.sqrt(2) * np.array([[1, 1], [1, -1]]))
    if g == "virtrz":
        u = np.eye(d, dtype=complex)
        u[p[0], p[0]] = np.exp(-1j * p[1])
        return u
    if g == "noisez":
        u = np.eye(d, dtype=complex)
        u[p, p] = -1
        return u
    if g == "noisex":
        a, b = sorted(p[:2])
        return two_level(d, a, b, np.array([[0, 1], [1, 0]]))
    if g == "noisey":
        a, b = sorted(p[:2])
        return two_level(d, a, b, np.array([[0, -1j], [1j, 0]]))
    if g == "pm":
        u = np.zeros((d, d), dtype=complex)
        for j, k in enumerate(p):
            u[k, j] = 1
        return u
    if g == "gellmann":
        return gell(d, *p)
    if g == "csum":
        dc, dt = ds
        u = np.zeros((dc * dt, dc * dt), dtype=complex)
        for i in range(dc):
            for j in range(dt):
                u[i * dt + (j + i) % dt, i * dt + j] = 1
        return u
    if g == "cx":
        dc, dt = ds
        a, b, c, ang = p if p is not None else (0, 1, 1, 0.0)
        u = np.eye(dc * dt, dtype=complex)
        blk = two_level(dt, a, b, np.array([[0, -1j * np.exp(-1j * ang)], [-1j * np.exp(1j * ang), 0]]))
        u[c * dt : (c + 1) * dt, c * dt : (c + 1) * dt] = blk
        return u
    if g == "ls":
        d0, d1 = ds
        u = np.eye(d0 * d1, dtype=complex)
        for i in range(min(d0, d1)):
            u[i * d1 + i, i * d1 + i] = np.exp(-1j * p[0])
        return u
    if g == "ms":
        d0, d1 = ds
        gen = np.kron(np.eye(d0), gell(d1, 0, 1, "s")) + np.kron(gell(d0, 0, 1, "s"), np.eye(d1))
        w, v = np.linalg.eigh(gen @ gen)
        return (v * np.exp(-0.25j * p[0] * w)) @ v.conj().T
    if g in ("cu_one", "cu_two", "cu_multi"):
        n = int(np.prod(ds))
        return haar(n, op["u"])
    msg = f"no reference for {g}"
    raise KeyError(msg)


def full_lines(op: dict) -> tuple[list[int], list[int], list[int]]:
    c = op.get("c")
    return op["t"], (list(c[0]) if c else []), (list(c[1]) if c else [])


def op_unitary(op: dict, dims: list[int]) -> np.ndarray:
    """Matrix on the targets, digits in target order, dagger included, controls excluded."""
    t = op["t"]
    if op["g"] in ("cu_two", "cu_multi"):
        # custom matrices are given with the digits in ascending line order
        order = sorted(t)
        m = base_matrix({**op, "t": order}, dims)
        perm = [order.index(q) for q in t]
        n = len(t)
        ds = [dims[q] for q in order]
        m = m.reshape(ds + ds).transpose(perm + [n + k for k in perm])
        size = int(np.prod(ds))
        m = m.reshape(size, size)
    else:
        m = base_matrix(op, dims)
    return m.conj().T if op.get("dag") else m


def apply(op: dict, dims: list[int], psi: np.ndarray) -> np.ndarray:
    """Apply op to a state (or to the columns of a matrix)."""
    t, ci, cl = full_lines(op)
    tail = psi.shape[1:]
    n = len(dims)
    x = psi.reshape(list(dims) + list(tail)).astype(complex)
    idx: list = [slice(None)] * x.ndim
    for q, lev in zip(ci, cl):
        idx[q] = lev
    sub = x[tuple(idx)]
    pos = [q - sum(1 for c in ci if c < q) for q in t]
    ds = [dims[q] for q in t]
    m = op_unitary(op, dims).reshape(ds + ds)
    k = len(t)
    new = np.tensordot(m, sub, axes=(list(range(k, 2 * k)), pos))
    new = np.moveaxis(new, list(range(k)), pos)
    out = x.copy()
    out[tuple(idx)] = new
    del n
    return out.reshape(psi.shape)


def zero(dims: list[int]) -> np.ndarray:
    v = np.zeros(int(np.prod(dims)), dtype=complex)
    v[0] = 1
    return v


def state(spec: dict, psi: np.ndarray | None = None) -> np.ndarray:
    v = zero(spec["dims"]) if psi is None else psi
    for op in spec["ops"]:
        v = apply(op, spec["dims"], v)
    return v


def unitary(spec: dict) -> np.ndarray:
    u = np.eye(int(np.prod(spec["dims"])), dtype=complex)
    for op in spec["ops"]:
        u = apply(op, spec["dims"], u)
    return u


def embed(op: dict, dims: list[int], lines: list[int]) -> np.ndarray:
    """Matrix of op restricted to the (ascending) lines given, controls and dagger included."""
    mp = {q: i for i, q in enumerate(lines)}
    o = dict(op)
    sub = [dims[q] for q in lines]
    c = op.get("c")
    u = np.eye(int(np.prod(sub)), dtype=complex)
    # custom unitary needs its own order: relabel monotonically so order is preserved
    o["t"] = [mp[q] for q in op["t"]]
    o["c"] = [[mp[q] for q in c[0]], list(c[1])] if c else None
    return apply(o, sub, u)


def lines_of(op: dict) -> list[int]:
    t, ci, _ = full_lines(op)
    return list(ci) + list(t)


def digits(dims: list[int]):
    return list(itertools.product(*[range(d) for d in dims]))


# ---------------------------------------------------------------- comparisons
def dist(a: np.ndarray, b: np.ndarray) -> float:
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    d = np.abs(a - b)
    if not np.all(np.isfinite(d)):
        return float("inf")
    return float(d.max(initial=0.0))


def phase_dist(a: np.ndarray, b: np.ndarray) -> float:
    """Distance up to one global phase."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    ov = np.vdot(b, a)
    if not np.isfinite(ov):
        return float("inf")
    if abs(ov) < 1e-12:
        return dist(a, b)
    return dist(a, b * (ov / abs(ov)))
