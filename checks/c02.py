"""C02: the dagger of an operation is its conjugate transpose, everywhere it is used."""
from __future__ import annotations

import copy

import numpy as np

from lib import gen, ref, sut

PID = "C02"
RULE = (
    "random gate with controls and target order, daggered 1..4 times before or after other uses, and circuits followed by their "
    "daggered reverse; distinct by kind, dimensions, targets, controls and number of daggers"
)
TOL = 1e-8


def gate(ctx, rng):
    ds = gen.dims(rng, 3, 5, 40)
    op = gen.op(rng, ds, gen.ALL if len(ds) > 1 else gen.SINGLE, dag=0.0)
    k = int(rng.integers(1, 5))
    ctx.case({"dims": ds, "op": op, "daggers": k}, [gen.sig({"dims": ds, "ops": [op]}), k])
    circ = sut.build({"dims": ds, "ops": [op]})
    g = circ.instructions[0]
    read_first = rng.random() < 0.5
    if read_first:
        g.to_matrix(2)
    copied = copy.deepcopy(g) if rng.random() < 0.3 else None
    for _ in range(k):
        r = g.dag()
        ctx.check(r is g or k % 2 == 0 or r.dagger == g.dagger, "dag() gave a gate in another state")
    want_op = {**op, "dag": bool(k % 2)}
    lines = ref.lines_of(op)
    sl = list(range(min(lines), max(lines) + 1))
    for ident, want in ((2, ref.unitary({"dims": ds, "ops": [want_op]})), (1, ref.embed(want_op, ds, sl))):
        e = ref.dist(np.asarray(g.to_matrix(ident)), want)
        ctx.check(e < TOL, f"{k} daggers of {op['g']}: matrix({ident}) is off by {e:.3g}", dims=ds, op=op)
    if copied is not None:
        e = ref.dist(np.asarray(copied.to_matrix(2)), ref.unitary({"dims": ds, "ops": [op]}))
        ctx.check(e < TOL, f"daggering {op['g']} changed an independent copy by {e:.3g}", dims=ds, op=op)
        ctx.ev("copies")
    s = np.asarray(circ.simulate()).ravel()
    e = ref.dist(s, ref.state({"dims": ds, "ops": [want_op]}))
    ctx.check(e < TOL, f"simulating {op['g']} daggered {k} times is off by {e:.3g}", dims=ds, op=op)
    ctx.ev("gates")
    ctx.seen("kind", op["g"])
    ctx.seen("daggers", k)
    if op.get("c"):
        ctx.ev("controlled")


def mirror(ctx, rng):
    """A circuit followed by the daggers of its gates in reverse order leaves every state alone."""
    ds = gen.dims(rng, 4, 5, 120)
    spec = gen.spec(rng, ds, gen.ALL, int(rng.integers(2, 9)), dag=0.3)
    full = {"dims": ds, "ops": gen.mixing(rng, ds) + spec["ops"]}
    rev = [{**o, "dag": not o.get("dag")} for o in reversed(full["ops"])]
    ctx.case(spec, gen.sig(spec))
    circ = sut.build({"dims": ds, "ops": full["ops"] + rev})
    s = np.asarray(circ.simulate()).ravel()
    e = ref.dist(s, ref.zero(ds))
    ctx.check(e < 1e-7, f"a circuit followed by its inverse moves |0..0> by {e:.3g}", spec=spec)
    ctx.ev("mirrors")


KINDS = {
    "gate": {"fn": gate, "quick": 1600, "thorough": 40000},
    "mirror": {"fn": mirror, "quick": 300, "thorough": 6000},
}
REQUIRED = {"gates": 400, "#kind": 19, "#daggers": 4, "controlled": 60, "mirrors": 60, "copies": 50}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "the definitions written in lib/ref.py"]
BUDGET = {"quick": 60, "thorough": 600}
