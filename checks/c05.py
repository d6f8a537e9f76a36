"""C05: the decision-diagram simulator returns the state the circuit describes."""
from __future__ import annotations

import numpy as np

from lib import gen, ref, sut

PID = "C05"
NEEDS_BINDINGS = True
RULE = (
    "random circuit of 1..60 supported gates (X,Z,H,S,R,Rz,Rh,VirtRz,CSum,CEx) on 1..6 qudits of dimension 2..7; distinct by "
    "dimensions and the list of (gate, lines, controls, dagger); each case compares all amplitudes"
)
TOL = 2e-6


def run(circ):
    from mqt.qudits.simulation import MQTQuditProvider

    return np.asarray(MQTQuditProvider().get_backend("misim").run(circ).result().get_state_vector()).ravel()


def compare(ctx, spec, circ):
    s = run(circ)
    want = ref.state(spec)
    ctx.check(s.size == want.size, "the state has the wrong size", got=s.shape)
    e = ref.dist(s, want)
    if e >= TOL and any(o.get("c") for o in spec["ops"]):
        bare = {"dims": spec["dims"], "ops": [{**o, "c": None} for o in spec["ops"]]}
        if ref.dist(s, ref.state(bare)) < TOL:
            ctx.known("misim-controls")
            return
    ctx.check(e < TOL, f"the simulated state is off by {e:.3g}", spec=spec)
    ctx.mx("error", e)


def circuits(ctx, rng):
    ds = gen.dims(rng, 6, 7, 700, wide=False)
    k = int(rng.integers(1, 61)) if np.prod(ds) <= 100 else int(rng.integers(1, 15))
    spec = gen.spec(rng, ds, gen.MISIM, k, ctrl=0.0)
    if rng.random() < 0.6:
        spec["ops"] = gen.mixing(rng, ds) + spec["ops"]
    ctx.case(spec, gen.sig(spec))
    with ctx.quiet():
        compare(ctx, spec, sut.build(spec))
    ctx.ev("circuits")
    ctx.ev("gates", len(spec["ops"]))
    for o in spec["ops"]:
        ctx.seen("kind_dim", [o["g"], ds[o["t"][0]]])
        if len(o["t"]) == 2:
            ctx.seen("two_qudit", [o["g"], o["t"], bool(o["dag"])])
    ctx.seen("qudits", len(ds))


def large(ctx, rng):
    """States of some thousand amplitudes, all different: the tables of nodes and numbers grow beyond their first blocks of memory."""
    while True:
        ds = [int(x) for x in rng.integers(2, 8, int(rng.integers(2, 13)))]
        if 1000 <= np.prod(ds) <= 5000:
            break
    ops = gen.mixing(rng, ds)
    ops += [gen.op(rng, ds, ["csum", "cx"], ctrl=0.0) for _ in range(int(rng.integers(2, 6)))]
    ops += gen.mixing(rng, ds) if rng.random() < 0.5 else []
    ops += gen.spec(rng, ds, gen.MISIM, int(rng.integers(1, 8)), ctrl=0.0)["ops"]
    spec = {"dims": ds, "ops": ops}
    ctx.case(spec, gen.sig(spec))
    with ctx.quiet():
        compare(ctx, spec, sut.build(spec))
    ctx.ev("large")
    ctx.mx("amplitudes", float(np.prod(ds)))


def small_angles(ctx, rng):
    """Rotations by tiny angles, again and again: what is lost in each adds up."""
    ds = gen.dims(rng, 3, 5, 40, wide=False)
    a = float(10.0 ** rng.uniform(-9, -3))
    block = []
    for _ in range(int(rng.integers(1, 4))):
        o = gen.op(rng, ds, ["r", "rz", "virtrz", *(["cx"] if len(ds) > 1 else [])], ctrl=0.0)
        if o.get("p"):
            o["p"] = [*o["p"][: {"r": 2, "rz": 2, "virtrz": 1, "cx": 3}[o["g"]]], *([a, float(rng.uniform(-3, 3))] if o["g"] == "r" else [a])]
        block.append(o)
        block.append(gen.op(rng, ds, ["h", "x"], ctrl=0.0, dag=0.5))
    spec = {"dims": ds, "ops": gen.mixing(rng, ds) * int(rng.integers(0, 2)) + block * int(rng.integers(1, 30))}
    ctx.case(spec, [gen.sig({"dims": ds, "ops": block}), len(spec["ops"]), round(np.log10(a))])
    with ctx.quiet():
        compare(ctx, spec, sut.build(spec))
    ctx.ev("small_angles")


def one_gate(ctx, rng):
    """A single gate after a product state with all amplitudes different: every entry of its matrix matters."""
    g = str(rng.choice(gen.MISIM))
    ds = gen.dims(rng, 4, 7, 400, 2 if g in gen.MULTI else 1, wide=False)
    if g == "s" and not any(ref.is_prime(d) for d in ds):
        ds[0] = 5
    spec = {"dims": ds, "ops": gen.mixing(rng, ds) + [gen.op(rng, ds, [g], ctrl=0.0)]}
    ctx.case(spec, gen.sig({"dims": ds, "ops": spec["ops"][-1:]}) + [str(spec["ops"][-1].get("p"))[:8]])
    with ctx.quiet():
        compare(ctx, spec, sut.build(spec))
    ctx.ev("single_gates")


def basis(ctx, rng):
    """Classical gates on basis states: digit arithmetic, in the right place."""
    ds = gen.dims(rng, 6, 7, 3000, 2, wide=False)
    ops = []
    for q, d in enumerate(ds):
        ops += [{"g": "x", "t": [q], "c": None, "dag": False}] * int(rng.integers(d))
    digits = [sum(1 for o in ops if o["t"] == [q]) for q in range(len(ds))]
    for _ in range(int(rng.integers(1, 8))):
        o = gen.op(rng, ds, ["csum"], ctrl=0.0)
        ops.append(o)
        a, b = o["t"]
        digits[b] = (digits[b] + (-1 if o["dag"] else 1) * digits[a]) % ds[b]
    spec = {"dims": ds, "ops": ops}
    ctx.case(spec, gen.sig(spec))
    with ctx.quiet():
        s = run(sut.build(spec))
    want = np.zeros(int(np.prod(ds)))
    want[np.ravel_multi_index(digits, ds)] = 1
    ctx.check(ref.dist(s, want) < TOL, "sums of digits end in the wrong basis state", dims=ds, digits=digits,
              got=int(np.argmax(np.abs(s))), ops=ops)
    ctx.ev("basis")


def controlled(ctx, rng):
    ds = gen.dims(rng, 4, 4, 100, 2, wide=False)
    spec = {"dims": ds, "ops": gen.mixing(rng, ds) + gen.spec(rng, ds, gen.MISIM, 3, ctrl=0.7)["ops"]}
    ctx.case(spec, gen.sig(spec))
    with ctx.quiet():
        compare(ctx, spec, sut.build(spec))
    ctx.ev("controlled")


def unsupported(ctx, rng):
    """What the simulator cannot do it refuses; it never gives the state of another circuit."""
    ds = gen.dims(rng, 3, 9, 200, wide=False)
    spec = gen.spec(rng, ds, gen.ALL, int(rng.integers(1, 5)), ctrl=0.0)
    ctx.case(spec, gen.sig(spec))
    circ = sut.build(spec)
    try:
        with ctx.quiet():
            s = run(circ)
    except Exception as e:  # noqa: BLE001
        # a refusal is fine only when something in the circuit is outside the supported set
        out = [o for o in spec["ops"] if o["g"] not in gen.MISIM or any(ds[q] > 7 for q in o["t"])]
        ctx.check(bool(out) or any(o["g"] == "cx" and o["p"] is None for o in spec["ops"]),
                  f"a supported circuit is refused: {type(e).__name__}: {e}", spec=spec)
        ctx.ev("refused")
        return
    e = ref.dist(s, ref.state(spec))
    ctx.check(e < TOL, f"the simulated state is off by {e:.3g}", spec=spec)
    ctx.ev("accepted")


def repeat(ctx, rng):
    from mqt.qudits.simulation import MQTQuditProvider

    specs = [gen.spec(rng, gen.dims(rng, 3, 5, 60, wide=False), gen.MISIM, 6, ctrl=0.0) for _ in range(3)]
    ctx.case(specs, [gen.sig(s) for s in specs])
    be = MQTQuditProvider().get_backend("misim")
    circs = [sut.build(s) for s in specs]
    with ctx.quiet():
        for _ in range(6):
            k = int(rng.integers(3))
            s = np.asarray(be.run(circs[k]).result().get_state_vector()).ravel()
            e = ref.dist(s, ref.state(specs[k]))
            ctx.check(e < TOL, f"the state after other runs is off by {e:.3g}", specs=specs)
    ctx.ev("repeats")


KINDS = {
    "circuits": {"fn": circuits, "quick": 3000, "thorough": 20000},
    "large": {"fn": large, "quick": 60, "thorough": 600},
    "small_angles": {"fn": small_angles, "quick": 300, "thorough": 4000},
    "one_gate": {"fn": one_gate, "quick": 3000, "thorough": 15000},
    "basis": {"fn": basis, "quick": 1000, "thorough": 6000},
    "controlled": {"fn": controlled, "quick": 60, "thorough": 600},
    "unsupported": {"fn": unsupported, "quick": 300, "thorough": 4000},
    "repeat": {"fn": repeat, "quick": 60, "thorough": 800},
}
REQUIRED = {"circuits": 200, "single_gates": 200, "basis": 100, "controlled": 10, "refused": 20, "accepted": 20, "repeats": 10, "large": 8, "small_angles": 60, "#kind_dim": 50}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "the definitions written in lib/ref.py"]
BUDGET = {"quick": 80, "thorough": 600}
