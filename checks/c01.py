"""C01: every gate is the unitary its definition says, for every dimension, level and angle."""
from __future__ import annotations

import numpy as np

from lib import gen, ref, sut

PID = "C01"
RULE = (
    "random gate of random kind on random qudits of dimension 2..9 with random and special parameters; one case is one gate, "
    "distinct by kind, dimensions, levels and target order; every case compares a full matrix"
)
TOL = 1e-8


def gates(ctx, rng):
    kinds = gen.ALL
    g = str(rng.choice(kinds))
    if g in gen.SINGLE:
        ds = [int(rng.integers(2, 10))]
        if g == "s":
            ds = [int(rng.choice([2, 3, 5, 7]))]
    else:
        ds = gen.dims(rng, 3, 5, 60, 2)
    op = gen.op(rng, ds, [g], ctrl=0.0, dag=0.0)
    spec = {"dims": ds, "ops": [op]}
    ctx.case(spec, [g, ds, op["t"], (op.get("p") or [])[:2] if isinstance(op.get("p"), list) else op.get("p")])
    circ = sut.build(spec)
    gate = circ.instructions[0]
    m = np.asarray(gate.to_matrix(0))
    want = ref.embed(op, ds, sorted(op["t"]))
    ctx.check(m.shape == want.shape, "the matrix has the wrong size", got=m.shape, want=want.shape)
    e = ref.dist(m, want)
    ctx.check(e < TOL, f"the matrix of {g} differs from its definition by {e:.3g}", spec=spec)
    n = len(m)
    ue = ref.dist(m @ m.conj().T, np.eye(n))
    ctx.check(ue < TOL, f"the matrix of {g} is not unitary: {ue:.3g}", spec=spec)
    # reading a gate must not change it
    ctx.check(ref.dist(np.asarray(gate.to_matrix(0)), m) == 0, f"two readings of {g} differ")
    ctx.ev("gates")
    ctx.seen("kind", g)
    ctx.seen("dims", ds)
    ctx.mx("error", e)
    if op["t"] != sorted(op["t"]):
        ctx.ev("reversed_targets")
    if g in {"r", "rz", "rh", "noisex", "noisey"} and op["p"][0] > op["p"][1]:
        ctx.ev("descending_levels")


def relations(ctx, rng):
    """Algebra that ties gates of one dimension to each other."""
    d = int(rng.integers(2, 10))
    mk = lambda g, p=None: np.asarray(  # noqa: E731
        sut.build({"dims": [d], "ops": [{"g": g, "t": [0], "p": p}]}).instructions[0].to_matrix(0)
    )
    a, b = gen.ints(rng.permutation(d)[:2])
    th, ph = gen.angle(rng), gen.angle(rng)
    ctx.case({"dim": d, "levels": [a, b], "angles": [th, ph]}, [d, a, b])
    x, z, h = mk("x"), mk("z"), mk("h")
    w = np.exp(2j * np.pi / d)
    ctx.check(ref.dist(z @ x, w * x @ z) < TOL, "Z X is not w X Z", d=d)
    ctx.check(ref.dist(np.linalg.matrix_power(x, d), np.eye(d)) < TOL, "X^d is not the identity", d=d)
    ctx.check(ref.dist(np.linalg.matrix_power(z, d), np.eye(d)) < TOL, "Z^d is not the identity", d=d)
    ctx.check(ref.dist(h.conj().T @ z @ h, x) < TOL or ref.dist(h @ x @ h.conj().T, z) < TOL, "H does not turn X into Z", d=d)
    r1, r2 = mk("r", [a, b, th, ph]), mk("r", [a, b, -th, ph])
    ctx.check(ref.dist(r1 @ r2, np.eye(d)) < TOL, "R(t) R(-t) is not the identity", d=d)
    ctx.check(ref.dist(r1 @ r1, mk("r", [a, b, 2 * th, ph])) < TOL, "R(t) R(t) is not R(2t)", d=d, th=th)
    z1, z2 = mk("rz", [a, b, th]), mk("rz", [a, b, ph])
    ctx.check(ref.dist(z1 @ z2, mk("rz", [a, b, th + ph])) < TOL, "Rz angles do not add", d=d)
    v = mk("virtrz", [a, th]) @ mk("virtrz", [a, ph])
    ctx.check(ref.dist(v, mk("virtrz", [a, th + ph])) < TOL, "virtual phases do not add", d=d)
    outside = [k for k in range(d) if k not in (a, b)]
    for name, m in (("r", r1), ("rz", z1)):
        for k in outside:
            ctx.check(abs(m[k, k] - 1) < TOL, f"{name} acts on a level outside its two", d=d, k=k)
    ctx.ev("relations")


def gellmann(ctx, rng):
    d = int(rng.integers(2, 8))
    kind = str(rng.choice(["s", "a"]))
    a, b = sorted(gen.ints(rng.permutation(d)[:2]))
    spec = {"dims": [d], "ops": [{"g": "gellmann", "t": [0], "p": [a, b, kind]}]}
    ctx.case(spec)
    circ = sut.build({"dims": [d], "ops": []})
    m = np.asarray(circ.gellmann(0, [a, b, kind]).to_matrix(0))
    ctx.check(ref.dist(m, ref.gell(d, a, b, kind)) < TOL, "generalised Gell-Mann matrix differs from its definition", spec=spec, got=np.round(m, 3))
    ctx.check(ref.dist(m, m.conj().T) < TOL and abs(np.trace(m)) < TOL, "Gell-Mann matrix is not Hermitian and traceless", spec=spec)
    ctx.check(abs(np.trace(m @ m) - 2) < TOL, "Gell-Mann matrix is not normalised", spec=spec)
    ctx.check(len(circ.instructions) == 0, "a Gell-Mann matrix entered the circuit")
    ctx.ev("gellmann")


def randu(ctx, rng):
    ds = gen.dims(rng, 3, 4, 40)
    lines = gen.ints(rng.permutation(len(ds))[: int(rng.integers(1, len(ds) + 1))])
    ctx.case({"dims": ds, "randu": lines})
    circ = sut.build({"dims": ds, "ops": []})
    gate = circ.randu(lines)
    m = np.asarray(gate.to_matrix(0))
    n = int(np.prod([ds[q] for q in lines]))
    ctx.check(m.shape == (n, n), "random unitary has the wrong size", got=m.shape, want=n)
    ctx.check(ref.dist(m @ m.conj().T, np.eye(n)) < TOL, "random unitary is not unitary")
    ctx.check(ref.dist(np.asarray(gate.to_matrix(0)), m) == 0, "random unitary changes between two readings")
    other = np.asarray(circ.randu(lines).to_matrix(0))
    ctx.check(ref.dist(other, m) > 1e-6, "two random unitaries are the same")
    ctx.ev("randu")


KINDS = {
    "gates": {"fn": gates, "quick": 6000, "thorough": 120000},
    "relations": {"fn": relations, "quick": 800, "thorough": 12000},
    "gellmann": {"fn": gellmann, "quick": 300, "thorough": 3000},
    "randu": {"fn": randu, "quick": 200, "thorough": 2000},
}
REQUIRED = {"gates": 1500, "#kind": 19, "relations": 200, "reversed_targets": 100, "descending_levels": 100, "gellmann": 60, "randu": 40}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "the definitions written in lib/ref.py"]
BUDGET = {"quick": 60, "thorough": 600}
