"""C10: compiling two-qudit gates gives local rotations and level-exchange gates that compute the same gate."""
from __future__ import annotations

import numpy as np

from lib import device, gen, ref, sut

PID = "C10"
RULE = (
    "random two-qudit gate (CSum, CEx, LS, MS, dense, singly controlled gates; both line orders, neighbouring or not, daggered) or "
    "circuit of such gates, compiled for random placements or a fake backend; distinct by device, dimensions and gate structure; "
    "each case compares unitaries"
)
TOL = 5e-4
KINDS2 = ["csum", "cx", "ls", "ms", "cu_two", "ctrl"]


def get(name):
    from mqt.qudits.compiler.twodit.entanglement_qr import LogEntQRCEXPass
    from mqt.qudits.compiler.twodit.entanglement_qr.phy_ent_qr_cex_decomp import PhyEntQRCEXPass

    return {"LogEntQRCEXPass": LogEntQRCEXPass, "PhyEntQRCEXPass": PhyEntQRCEXPass}[name]


def make(ctx, rng, n, dmax):
    ds = gen.ints(rng.integers(2, dmax + 1, n))
    if rng.random() < 0.35:
        name = "faketraps2six" if n <= 2 else "faketraps3six"
        if n == 2 and rng.random() < 0.5:
            name, ds = "faketraps2trits", [3, 3]
        else:
            be = device.backend(name)
            ok = [d for d in range(2, dmax + 1) if device.usable(be, 0, d)]
            ds = [int(rng.choice(ok)) for _ in ds]
        return name, (lambda: device.backend(name)), ds
    graphs = [device.random_graph(rng, d) for d in ds]
    return graphs, (lambda: device.custom(graphs)), ds


def operation(rng, ds):
    g = str(rng.choice(KINDS2))
    if g != "ctrl":
        return gen.op(rng, ds, [g], dag=0.35)
    while True:
        o = gen.op(rng, ds, ["x", "z", "h", "r", "rz", "rh", "virtrz", "cu_one"], ctrl=1.0, dag=0.3, max_ctrl=1)
        if o["c"]:
            return o


def judge(ctx, be, name, got, u, ds, what, **info):
    m = device.placements(be, ds)
    want = m @ u @ m.T if name.startswith("Phy") else u
    e = ref.phase_dist(got, want)
    ctx.check(e < TOL * info.pop("scale", 1), f"{name}: {what} is off by {e:.3g}", **info)
    ctx.mx("error", e)
    if not np.allclose(m, np.eye(len(m))):
        ctx.ev("moved_placements")


def one(ctx, rng):
    name = str(rng.choice(["LogEntQRCEXPass", "PhyEntQRCEXPass"]))
    n = 2 if rng.random() < 0.6 else 3
    desc, mk, ds = make(ctx, rng, n, 5 if rng.random() < 0.15 and n == 2 else 3 if n == 3 else 4)
    o = operation(rng, ds)
    spec = {"dims": ds, "ops": [o]}
    ctx.case({"device": desc, "pass": name, "spec": spec}, [desc, name, gen.sig(spec), str(o.get("p"))[:12]])
    be = mk()
    gate = sut.build(spec).instructions[0]
    before = np.asarray(gate.to_matrix(2))
    with device.limited(40):
        out = get(name)(be).transpile_gate(gate)
    ctx.check(ref.dist(np.asarray(gate.to_matrix(2)), before) == 0, f"{name} changes the gate it is given", spec=spec)
    for g in out:
        lines = g.reference_lines
        ctx.check(set(lines) <= set(ref.lines_of(o)), f"{name} touches other lines", spec=spec, lines=lines)
        ctx.check(len(lines) == 1 or g.qasm_tag == "cx", f"{name} emits {g.qasm_tag} on {len(lines)} lines", spec=spec)
        ctx.seen("emitted", g.qasm_tag)
    judge(ctx, be, name, device.product(out, ds), ref.unitary(spec), ds, o["g"], device=desc, spec=spec)
    ctx.ev(name)
    ctx.seen("gate", [name, o["g"], o["t"], bool(o["c"]), bool(o["dag"])])
    t = ref.lines_of(o)
    ctx.ev("reversed", t[0] > t[1])
    ctx.ev("long_range", abs(t[0] - t[1]) > 1)


def circuits(ctx, rng):
    name = str(rng.choice(["LogEntQRCEXPass", "PhyEntQRCEXPass"]))
    n = 2 if rng.random() < 0.6 else 3
    desc, mk, ds = make(ctx, rng, n, 3)
    k = int(rng.integers(2, 5))
    ops = [operation(rng, ds) for _ in range(k)]
    local = name.startswith("Log")
    if local:
        # gates on one line are left as they are
        ops.insert(int(rng.integers(k)), device.local_op(rng, ds[0], 0))
    spec = {"dims": ds, "ops": ops}
    ctx.case({"device": desc, "pass": name, "spec": spec}, [desc, name, gen.sig(spec)])
    be = mk()
    circ = sut.build(spec)
    with device.limited(60):
        new = get(name)(be).transpile(circ)
    ctx.check(ref.dist(device.product(circ.instructions, ds), ref.unitary(spec)) < 1e-9, f"{name} changes the circuit it is given", spec=spec)
    judge(ctx, be, name, device.product(new.instructions, ds), ref.unitary(spec), ds, "circuit", scale=3, device=desc, spec=spec)
    ctx.check(list(new.dimensions) == ds, f"{name} changes the dimensions", spec=spec)
    ctx.ev("circuit_" + name)


KINDS = {
    "one": {"fn": one, "quick": 400, "thorough": 6000},
    "circuits": {"fn": circuits, "quick": 80, "thorough": 1200},
}
REQUIRED = {"LogEntQRCEXPass": 60, "PhyEntQRCEXPass": 60, "circuit_LogEntQRCEXPass": 10, "circuit_PhyEntQRCEXPass": 10,
            "moved_placements": 30, "reversed": 60, "long_range": 15, "#gate": 25}
ASSUMPTIONS = [
    "numpy's dense complex arithmetic",
    "unitaries are compared up to a global phase and 5e-4 per gate, since the passes drop small phases",
]
BUDGET = {"quick": 100, "thorough": 660}
