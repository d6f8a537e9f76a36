"""C06: results do not depend on the route: simulators agree, norms hold, circuits undo themselves, disjoint gates commute."""
from __future__ import annotations

import numpy as np

from lib import gen, ref, sut

PID = "C06"
NEEDS_BINDINGS = True
RULE = (
    "random circuit run along two or more routes (tensor network, decision diagrams, forward and back, other order of gates on "
    "disjoint lines, registers, growing circuit); distinct by dimensions and list of (gate, lines, dagger)"
)
TOL = 3e-6


def run(be, circ):
    from mqt.qudits.simulation import MQTQuditProvider

    return np.asarray(MQTQuditProvider().get_backend(be).run(circ).result().get_state_vector()).ravel()


def both(ctx, rng):
    """Large systems, beyond what a dense matrix could follow: both simulators, every amplitude."""
    ds = gen.dims(rng, 9, 7, 6000, 2, wide=False)
    spec = gen.spec(rng, ds, gen.MISIM, int(rng.integers(5, 26)), ctrl=0.0)
    if rng.random() < 0.5:
        spec["ops"] = gen.mixing(rng, ds[:4]) + spec["ops"]
    ctx.case(spec, gen.sig(spec))
    circ = sut.build(spec)
    with ctx.quiet():
        a, b = run("tnsim", circ), run("misim", circ)
    e = ref.dist(a, b)
    ctx.check(e < TOL, f"the two simulators differ by {e:.3g}", spec=spec)
    n = abs(np.linalg.norm(a) - 1) + abs(np.linalg.norm(b) - 1)
    ctx.check(n < 1e-5, f"the norm is off by {n:.3g}", spec=spec)
    ctx.ev("both")
    ctx.mx("size", a.size)
    ctx.seen("qudits", len(ds))


def undo(ctx, rng):
    """A circuit followed by its inverse gives |0..0> back."""
    be = str(rng.choice(["tnsim", "misim"]))
    kinds = gen.MISIM if be == "misim" else gen.ALL
    ds = gen.dims(rng, 6, 7, 500, wide=False)
    k = int(rng.integers(2, 25 if np.prod(ds) < 200 else 8))
    ops = gen.spec(rng, ds, kinds, k, ctrl=0.0 if be == "misim" else 0.3, max_ctrl=2)["ops"]
    back = [{**o, "dag": not o.get("dag")} for o in reversed(ops)]
    spec = {"dims": ds, "ops": ops + back}
    ctx.case(spec, [be, gen.sig({"dims": ds, "ops": ops})])
    with ctx.quiet():
        s = run(be, sut.build(spec))
    e = ref.dist(s, ref.zero(ds))
    ctx.check(e < TOL, f"{be}: a circuit and its inverse leave {e:.3g}", spec=spec)
    ctx.ev("undo_" + be)


def commute(ctx, rng):
    """Swapping neighbouring gates without a common line changes nothing."""
    ds = gen.dims(rng, 6, 5, 400, 3, wide=False)
    be = str(rng.choice(["tnsim", "misim"]))
    kinds = gen.MISIM if be == "misim" else gen.ALL
    ops = gen.mixing(rng, ds) + gen.spec(rng, ds, kinds, int(rng.integers(4, 12)), ctrl=0.0 if be == "misim" else 0.3, max_ctrl=1)["ops"]
    other = list(ops)
    swaps = 0
    for _ in range(60):
        i = int(rng.integers(len(other) - 1))
        if not set(ref.lines_of(other[i])) & set(ref.lines_of(other[i + 1])):
            other[i], other[i + 1] = other[i + 1], other[i]
            swaps += 1
    if not swaps:
        return
    ctx.case({"dims": ds, "ops": ops}, [be, gen.sig({"dims": ds, "ops": other})])
    with ctx.quiet():
        a, b = run(be, sut.build({"dims": ds, "ops": ops})), run(be, sut.build({"dims": ds, "ops": other}))
    e = ref.dist(a, b)
    ctx.check(e < TOL, f"{be}: reordering gates on disjoint lines changes the state by {e:.3g}", dims=ds, ops=ops, other=other)
    ctx.ev("commute_" + be)


def idle(ctx, rng):
    """A line without gates stays in |0> and changes nothing else."""
    ds = gen.dims(rng, 4, 5, 120, wide=False)
    pos = int(rng.integers(len(ds) + 1))
    d = int(rng.integers(2, 8))
    be = str(rng.choice(["tnsim", "misim"]))
    ops = gen.mixing(rng, ds) + gen.spec(rng, ds, gen.MISIM if be == "misim" else gen.ALL, 6, ctrl=0.0 if be == "misim" else 0.3)["ops"]
    wide = [*ds[:pos], d, *ds[pos:]]
    up = lambda q: q + (q >= pos)  # noqa: E731
    moved = [
        {**o, "t": [up(q) for q in o["t"]], "c": [[up(q) for q in o["c"][0]], o["c"][1]] if o.get("c") else None} for o in ops
    ]
    ctx.case({"dims": wide, "ops": moved}, [be, pos, gen.sig({"dims": wide, "ops": moved})])
    with ctx.quiet():
        a, b = run(be, sut.build({"dims": ds, "ops": ops})), run(be, sut.build({"dims": wide, "ops": moved}))
    b = np.moveaxis(b.reshape(wide), pos, 0).reshape(d, -1)
    e = max(ref.dist(b[0], a), float(np.abs(b[1:]).max()))
    ctx.check(e < TOL, f"{be}: an idle line changes the state by {e:.3g}", dims=ds, ops=ops, pos=pos, d=d)
    ctx.ev("idle_" + be)


def grow(ctx, rng):
    """Simulating between additions of gates gives the same as simulating at the end."""
    ds = gen.dims(rng, 4, 5, 100, wide=False)
    be = str(rng.choice(["tnsim", "misim"]))
    ops = gen.spec(rng, ds, gen.MISIM if be == "misim" else gen.ALL, 6, ctrl=0.0 if be == "misim" else 0.3)["ops"]
    ctx.case({"dims": ds, "ops": ops}, [be, gen.sig({"dims": ds, "ops": ops})])
    circ = sut.build({"dims": ds, "ops": []})
    psi = ref.zero(ds)
    with ctx.quiet():
        for o in ops:
            sut.add(circ, o)
            psi = ref.apply(o, ds, psi)
            e = ref.dist(run(be, circ), psi)
            ctx.check(e < TOL, f"{be}: the state is off by {e:.3g} after another gate was added", dims=ds, ops=ops)
    ctx.ev("grow_" + be)


KINDS = {
    "both": {"fn": both, "quick": 250, "thorough": 5000},
    "undo": {"fn": undo, "quick": 500, "thorough": 10000},
    "commute": {"fn": commute, "quick": 300, "thorough": 5000},
    "idle": {"fn": idle, "quick": 400, "thorough": 6000},
    "grow": {"fn": grow, "quick": 150, "thorough": 2500},
}
REQUIRED = {f"{k}_{b}": 10 for k in ("undo", "commute", "idle", "grow") for b in ("tnsim", "misim")} | {"both": 50}
ASSUMPTIONS = ["numpy's dense complex arithmetic"]
BUDGET = {"quick": 80, "thorough": 600}
