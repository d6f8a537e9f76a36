"""Random circuits ("specs", see ref.py) and adversarial parameter choices."""
from __future__ import annotations

import numpy as np

from lib import ref

SINGLE = ["x", "z", "h", "s", "r", "rz", "rh", "virtrz", "noisex", "noisey", "noisez", "pm", "cu_one"]
MULTI = ["csum", "cx", "ls", "ms", "cu_two", "cu_multi"]
ALL = SINGLE + MULTI
MISIM_SINGLE = ["x", "z", "h", "s", "r", "rz", "rh", "virtrz"]
MISIM = [*MISIM_SINGLE, "csum", "cx"]

SPECIAL = [0.0, np.pi, -np.pi, np.pi / 2, -np.pi / 2, 2 * np.pi, 4 * np.pi, -3 * np.pi, np.pi / 3, 1e-3, 7.5]


def angle(rng, lim: float = 14.0) -> float:  # noqa: ANN001
    if rng.random() < 0.2:
        return float(SPECIAL[int(rng.integers(len(SPECIAL)))])
    u = rng.random()
    if u < 0.04:  # many full turns
        return float(rng.uniform(-400, 400))
    if u < 0.07:  # hardly any turn
        return float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-8, -2))
    return float(rng.uniform(-lim, lim))


def dims(rng, nmax: int = 3, dmax: int = 4, size: int = 64, nmin: int = 1, wide: bool = True) -> list[int]:  # noqa: ANN001
    wide = wide and dmax >= 4 and size >= 40 and rng.random() < 0.05
    while True:
        n = int(rng.integers(nmin, nmax + 1))
        d = [int(x) for x in rng.integers(2, dmax + 1, n)]
        if wide:  # levels of two digits, beyond the primes the examples use
            d[int(rng.integers(n))] = int(rng.integers(8, 14))
        if np.prod(d) <= size:
            return d


def ints(xs) -> list[int]:  # noqa: ANN001
    return [int(x) for x in xs]


def op(rng, ds, kinds, ctrl: float = 0.35, dag: float = 0.3, late: bool = True, max_ctrl: int = 9) -> dict:  # noqa: ANN001
    n = len(ds)
    while True:
        g = str(rng.choice(kinds))
        o: dict = {"g": g, "c": None, "dag": bool(rng.random() < dag)}
        if g in SINGLE:
            q = int(rng.integers(n))
            d = ds[q]
            if g == "s" and not ref.is_prime(d):
                continue
            o["t"] = [q]
            lv = ints(rng.permutation(d)[:2])
            if g == "r":
                o["p"] = [*lv, angle(rng), angle(rng, 7)]
            elif g == "rz":
                o["p"] = [*lv, angle(rng)]
            elif g in {"rh", "noisex", "noisey"}:
                o["p"] = lv
            elif g == "virtrz":
                o["p"] = [lv[0], angle(rng)]
            elif g == "noisez":
                o["p"] = lv[0]
            elif g == "pm":
                o["p"] = ints(rng.permutation(d))
            elif g == "cu_one":
                o["u"] = int(rng.integers(1 << 30))
            if n > 1 and rng.random() < ctrl:
                k = int(rng.integers(1, min(n - 1, max_ctrl) + 1))
                oth = ints(rng.permutation([i for i in range(n) if i != q])[:k])
                o["c"] = [oth, [int(rng.integers(ds[i])) for i in oth]]
                o["late"] = bool(late and rng.random() < 0.5)
            return o
        if n < 2:
            if all(k in MULTI for k in kinds):
                msg = "no such gate on one qudit"
                raise ValueError(msg)
            continue
        k = 2 if g != "cu_multi" else int(rng.integers(2, min(n, 3) + 1))
        o["t"] = ints(rng.permutation(n)[:k])
        if g == "cx":
            a, b = sorted(ints(rng.permutation(ds[o["t"][1]])[:2]))
            o["p"] = [a, b, int(rng.integers(ds[o["t"][0]])), float(rng.uniform(0, 2 * np.pi))]
            if rng.random() < 0.15:
                if ds[o["t"][0]] < 2:
                    continue
                o["p"] = None
        elif g in {"ls", "ms"}:
            o["p"] = [float(rng.uniform(0, 2 * np.pi))]
        elif g.startswith("cu"):
            o["u"] = int(rng.integers(1 << 30))
        return o


def spec(rng, ds, kinds, nops: int, **kw) -> dict:  # noqa: ANN001, ANN003
    use = [k for k in kinds if len(ds) > 1 or k not in MULTI]
    return {"dims": list(ds), "ops": [op(rng, ds, use, **kw) for _ in range(nops)]}


def near_ops(rng, ds, kinds, nops: int, span: int = 130, **kw) -> list[dict]:  # noqa: ANN001, ANN003
    """Operations whose lines, and the ones between, have no more than span states: their matrices stay small."""
    out: list[dict] = []
    kinds = [k for k in kinds if len(ds) > 1 or k not in MULTI]
    while len(out) < nops:
        o = op(rng, ds, kinds, **kw)
        ls = ref.lines_of(o)
        if np.prod([float(ds[q]) for q in range(min(ls), max(ls) + 1)]) <= span:
            out.append(o)
    return out


def mixing(rng, ds) -> list[dict]:  # noqa: ANN001
    """Operations that bring every level of every line into play with distinct amplitudes."""
    out = []
    for q, d in enumerate(ds):
        out.append({"g": "h", "t": [q], "c": None})
        for lev in range(d):
            out.append({"g": "virtrz", "t": [q], "p": [lev, float(rng.uniform(-3, 3))], "c": None})
        a, b = ints(rng.permutation(d)[:2])
        out.append({"g": "r", "t": [q], "p": [min(a, b), max(a, b), float(rng.uniform(0.3, 1.2)), float(rng.uniform(-3, 3))], "c": None})
    return out


def registers(rng, n: int) -> list[list]:  # noqa: ANN001
    names = ["alpha", "q", "field", "r0", "matter", "anc", "Zed", "b_1"]
    names = [names[i] for i in rng.permutation(len(names))]
    out = []
    left = n
    while left:
        k = int(rng.integers(1, left + 1))
        out.append([names[len(out)], k])
        left -= k
    return out


def sig(sp: dict) -> list:
    """What makes circuits alike for counting distinct ones: structure without angles."""
    return [sp["dims"], [[o["g"], o["t"], o.get("c"), bool(o.get("dag"))] for o in sp["ops"]]]
