"""C04: the tensor-network simulator returns the state the circuit describes."""
from __future__ import annotations

import numpy as np

from lib import gen, ref, sut

PID = "C04"
RULE = (
    "random circuit of 1..25 gates of all kinds on 1..6 qudits of dimension 2..7; distinct by dimensions and the list of "
    "(gate, lines, controls, dagger); also up to 13 lines (10000 amplitudes), up to 40 levels, up to 200 gates; each case compares all amplitudes"
)
TOL = 1e-7


def circuits(ctx, rng):
    ds = gen.dims(rng, 6, 7, 400)
    k = int(rng.integers(1, 26)) if np.prod(ds) <= 150 else int(rng.integers(1, 9))
    spec = gen.spec(rng, ds, gen.ALL, k, ctrl=0.3, max_ctrl=3)
    if rng.random() < 0.6:
        spec["ops"] = gen.mixing(rng, ds) + spec["ops"]
    if any(len(o["t"]) + len((o.get("c") or [[]])[0]) > 2 for o in spec["ops"]):
        ctx.ev("with_many_body_gates")
    ctx.case(spec, gen.sig(spec))
    circ = sut.build(spec)
    s = np.asarray(circ.simulate())
    want = ref.state(spec)
    ctx.check(s.size == want.size, "the state has the wrong size", got=s.shape)
    s = s.ravel()
    n = float(np.vdot(s, s).real)
    ctx.check(abs(n - 1) < 1e-7, f"the state has norm {n}", spec=spec)
    e = ref.dist(s, want)
    ctx.check(e < TOL, f"the simulated state is off by {e:.3g}", spec=spec)
    ctx.ev("circuits")
    ctx.ev("gates", len(spec["ops"]))
    for o in spec["ops"]:
        ctx.seen("kind", o["g"])
    ctx.seen("qudits", len(ds))
    ctx.mx("error", e)


def compare(ctx, spec, tol=TOL):
    circ = sut.build(spec)
    s = np.asarray(circ.simulate())
    want = ref.state(spec)
    ctx.check(s.size == want.size, "the state has the wrong size", got=s.shape)
    e = ref.dist(s.ravel(), want)
    ctx.check(e < tol, f"the simulated state is off by {e:.3g}", spec=spec)
    ctx.ev("gates", len(spec["ops"]))


def large(ctx, rng):
    """Many lines, every amplitude."""
    while True:
        ds = [int(x) for x in rng.integers(2, 6, int(rng.integers(4, 14)))]
        if 400 <= np.prod(ds) <= 10000:
            break
    ops = gen.near_ops(rng, ds, gen.ALL, int(rng.integers(3, 20)), max_ctrl=3)
    ops = gen.mixing(rng, ds) + ops if rng.random() < 0.5 else ops
    spec = {"dims": ds, "ops": ops}
    ctx.case(spec, gen.sig(spec))
    compare(ctx, spec)
    ctx.ev("large")
    ctx.seen("lines", len(ds))
    ctx.mx("amplitudes", float(np.prod(ds)))


def deep(ctx, rng):
    """Long circuits on few lines."""
    ds = gen.dims(rng, 4, 4, 24)
    spec = gen.spec(rng, ds, gen.ALL, int(rng.integers(60, 200)))
    ctx.case(spec, gen.sig(spec))
    compare(ctx, spec, 1e-6)
    ctx.ev("deep")


def high(ctx, rng):
    """Few lines with very many levels."""
    ds = [int(x) for x in rng.integers(8, 41, 1 if rng.random() < 0.5 else 2)]
    if len(ds) == 2:
        ds[int(rng.integers(2))] = int(rng.integers(2, 4))
    spec = {"dims": ds, "ops": gen.near_ops(rng, ds, gen.ALL, int(rng.integers(1, 8)))}
    ctx.case(spec, gen.sig(spec))
    compare(ctx, spec)
    ctx.ev("high")


def tiny(ctx, rng):
    """Rotations by tiny angles again and again: what is lost in each adds up."""
    ds = gen.dims(rng, 3, 5, 40)
    a = float(10.0 ** rng.uniform(-9, -3)) * (1 if rng.random() < 0.5 else -1)
    block = []
    for _ in range(int(rng.integers(1, 4))):
        o = gen.op(rng, ds, ["r", "rz", "virtrz", *(["cx", "ls", "ms"] if len(ds) > 1 else [])])
        if o.get("p"):
            o["p"] = {"r": [*o["p"][:2], a, o["p"][-1]], "ls": [abs(a)], "ms": [abs(a)]}.get(o["g"], [*o["p"][:-1], abs(a)])
        block += [o, gen.op(rng, ds, ["h", "x"], ctrl=0.0)]
    spec = {"dims": ds, "ops": gen.mixing(rng, ds) * int(rng.integers(0, 2)) + block * int(rng.integers(1, 25))}
    ctx.case(spec, [gen.sig({"dims": ds, "ops": block}), len(spec["ops"]), round(np.log10(abs(a)))])
    # a rotation by a has entries of size a/2: losing them shows
    compare(ctx, spec, min(TOL, max(1e-11, abs(a) / 50)))
    ctx.ev("tiny")


def repeat(ctx, rng):
    """Running a circuit, or another one in between, does not change what it gives."""
    from mqt.qudits.simulation import MQTQuditProvider

    a = gen.spec(rng, gen.dims(rng, 3, 4, 40), gen.ALL, 5)
    b = gen.spec(rng, gen.dims(rng, 3, 4, 40), gen.ALL, 5)
    ctx.case([a, b], [gen.sig(a), gen.sig(b)])
    be = MQTQuditProvider().get_backend("tnsim")
    ca, cb = sut.build(a), sut.build(b)
    for which in (0, 1, 0, 0, 1):
        s = np.asarray(be.run((ca, cb)[which]).result().get_state_vector()).ravel()
        e = ref.dist(s, ref.state((a, b)[which]))
        ctx.check(e < TOL, f"the state after other runs on the backend is off by {e:.3g}", a=a, b=b)
    u = ref.unitary(a)
    v = np.eye(len(u), dtype=complex)
    for g in ca.instructions:
        v = np.asarray(g.to_matrix(2)) @ v
    ctx.check(ref.dist(u, v) < TOL, "simulation changed the circuit", a=a)
    ctx.ev("repeats")


def empty(ctx, rng):
    ds = gen.dims(rng, 5, 7, 500)
    ctx.case({"dims": ds, "ops": []})
    s = np.asarray(sut.build({"dims": ds, "ops": []}).simulate()).ravel()
    ctx.check(ref.dist(s, ref.zero(ds)) < TOL, "a circuit without gates does not give |0..0>", dims=ds)
    ctx.ev("empty")


KINDS = {
    "circuits": {"fn": circuits, "quick": 800, "thorough": 20000},
    "large": {"fn": large, "quick": 150, "thorough": 3000},
    "deep": {"fn": deep, "quick": 40, "thorough": 800},
    "high": {"fn": high, "quick": 80, "thorough": 1500},
    "tiny": {"fn": tiny, "quick": 100, "thorough": 2000},
    "repeat": {"fn": repeat, "quick": 80, "thorough": 1500},
    "empty": {"fn": empty, "quick": 40, "thorough": 200},
}
REQUIRED = {"circuits": 200, "#kind": 19, "#qudits": 5, "with_many_body_gates": 60, "repeats": 20, "empty": 10,
            "large": 40, "deep": 10, "high": 20, "tiny": 25, "#lines": 6}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "the definitions written in lib/ref.py"]
BUDGET = {"quick": 60, "thorough": 600}
