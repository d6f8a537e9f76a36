"""Devices for the compiler checks: the fake backends, and backends with random level graphs."""
from __future__ import annotations

import contextlib
import io
import signal

import numpy as np

from lib import gen, ref
from lib.harness import Skip

FAKE = ["faketraps2trits", "faketraps2six", "faketraps3six"]


def backend(name: str):
    from mqt.qudits.simulation import MQTQuditProvider

    return MQTQuditProvider().get_backend(name)


def random_graph(rng, d: int) -> dict:
    """A connected graph on d levels with a random placement, as plain data."""
    order = gen.ints(rng.permutation(d))
    edges = [[order[i], order[int(rng.integers(i))] if rng.random() < 0.7 else order[i - 1]] for i in range(1, d)]
    have = {frozenset(e) for e in edges}
    for _ in range(int(rng.integers(0, 3))):
        if d > 2:
            a, b = gen.ints(rng.permutation(d)[:2])
            if frozenset((a, b)) not in have:
                have.add(frozenset((a, b)))
                edges.append([a, b])
    return {
        "edges": [[a, b, int(rng.integers(1, 7))] for a, b in edges],
        "map": gen.ints(rng.permutation(d)) if rng.random() < 0.7 else list(range(d)),
        "init": gen.ints(rng.permutation(d)[: int(rng.integers(1, d + 1))]),
    }


def graph(data: dict):
    from mqt.qudits.core import LevelGraph

    d = len(data["map"])
    edges = [(a, b, {"delta_m": 0, "sensitivity": s}) for a, b, s in data["edges"]]
    return LevelGraph(edges, list(range(d)), list(data["map"]), list(data["init"]))


def custom(graphs: list[dict]):
    """A backend whose qudits have exactly these level graphs."""
    be = backend("faketraps2trits" if len(graphs) <= 2 else "faketraps3six")
    lst = be.energy_level_graphs
    lst[:] = [graph(g) for g in graphs]
    for i, g in enumerate(lst):
        g.set_qudits_index(i)
    return be


def placement(be, i: int, d: int) -> list[int]:
    return [x for x in be.energy_level_graphs[i].log_phy_map][:d]


def perm(m: list[int]) -> np.ndarray:
    p = np.zeros((len(m), len(m)))
    for i, k in enumerate(m):
        p[k, i] = 1
    return p


def placements(be, dims) -> np.ndarray:
    u = np.eye(1)
    for i, d in enumerate(dims):
        u = np.kron(u, perm(placement(be, i, d)))
    return u


def usable(be, i: int, d: int) -> bool:
    """The levels below d are connected with each other on qudit i and placed among themselves."""
    import networkx as nx

    g = be.energy_level_graphs[i]
    m = placement(be, i, d)
    if len(m) < d or sorted(m) != list(range(d)):
        return False
    # the routes stay below d
    return all(
        nx.has_path(g, a, b) and max(nx.shortest_path(g, a, b)) < d for a in range(d) for b in range(d) if a != b
    )


def couplings(be, i: int, physical: bool = True) -> set[frozenset]:
    """Pairs of physical levels the device can drive."""
    g = be.energy_level_graphs[i]
    m = {n: g.nodes[n]["lpmap"] for n in g.nodes}
    return {frozenset((m[a], m[b]) if physical else (a, b)) for a, b in g.edges}


def product(ops, dims) -> np.ndarray:
    u = np.eye(int(np.prod(dims)), dtype=complex)
    for g in ops:
        u = np.asarray(g.to_matrix(2)) @ u
    return u


def _slow(*_a):
    raise Skip("slow search")


@contextlib.contextmanager
def limited(seconds: float):
    """Some searches are exponential by design; a case that takes too long is left out, not judged."""
    signal.signal(signal.SIGALRM, _slow)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def local_op(rng, d: int, q: int = 0, **kw) -> dict:
    """A single-qudit operation on line q with structure that decompositions can trip over."""
    k = int(rng.integers(8))
    if k == 0:
        return {"g": "pm", "t": [q], "p": gen.ints(rng.permutation(d)), "c": None, "dag": bool(rng.random() < 0.3)}
    if k == 1:
        a, b = gen.ints(rng.permutation(d)[:2])
        return {"g": "r", "t": [q], "p": [a, b, float(rng.choice([np.pi, -np.pi, np.pi / 2, 2 * np.pi, 3 * np.pi, 0.0])),
                                          float(rng.choice([0.0, np.pi / 2, -np.pi / 2, np.pi, 0.3]))], "c": None, "dag": bool(rng.random() < 0.3)}
    if k in (2, 3):
        return {"g": "cu_one", "t": [q], "c": None, "u": int(rng.integers(1 << 30)), "dag": bool(rng.random() < 0.3)}
    kinds = ["x", "z", "h", "r", "rz", "rh", "virtrz", "noisex", "noisey"] + (["s"] if ref.is_prime(d) else [])
    o = gen.op(rng, [d], kinds, ctrl=0.0, **kw)
    return {**o, "t": [q]}
