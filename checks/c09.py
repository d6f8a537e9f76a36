"""C09: compiling single-qudit gates gives pulses the device can drive that compute the gate on the placed levels."""
from __future__ import annotations

import numpy as np

from lib import device, gen, ref, sut
from lib.harness import Skip

PID = "C09"
RULE = (
    "random sequence of single-qudit gates (dense, permutation, pi-pulse, diagonal, two-level, daggered) compiled for a random "
    "connected level graph with random placement or a fake backend; distinct by device, dimensions and gate structure; each case "
    "compares unitaries and walks over every emitted pulse"
)
TOL = 2e-3
PASSES = ["PhyLocQRPass", "PhyLocAdaPass", "LogLocQRPass", "LogLocAdaPass"]


def get(name):
    from mqt.qudits.compiler import onedit

    return getattr(onedit, name)


def device_for(ctx, rng, n: int, dmax: int):
    """Graph descriptions (or a fake backend's name) and dimensions."""
    if rng.random() < 0.3:
        name = str(rng.choice(device.FAKE))
        be = device.backend(name)
        n = min(n, len(be.energy_level_graphs))
        ds = []
        for q in range(n):
            ok = [d for d in range(2, dmax + 1) if device.usable(be, q, d)]
            if not ok:
                raise Skip("no usable levels")
            ds.append(int(rng.choice(ok)))
        return name, (lambda: device.backend(name)), ds
    ds = gen.ints(rng.integers(2, dmax + 1, n))
    graphs = [device.random_graph(rng, d) for d in ds]
    return graphs, (lambda: device.custom(graphs)), ds


def pulses(ctx, be_edges, out, what, info):
    for g in out:
        tag = g.qasm_tag
        ctx.check(tag in {"rxy", "virtrz", "rz"}, f"{what} emits {tag}", **info)
        if tag == "rxy":
            a, b = sorted((g.lev_a, g.lev_b))
            ctx.check(frozenset((a, b)) in be_edges, f"{what} drives the levels {a},{b}, which are not coupled", **info)
            ctx.ev("pulses")


def one(ctx, rng):
    """One gate at a time; the pass leaves gate and circuit as they were."""
    name = str(rng.choice(PASSES))
    big = rng.random() < 0.25
    desc, make, ds = device_for(ctx, rng, 1, 5 if name.endswith("QRPass") else (4 if big else 3))
    d = ds[0]
    op = device.local_op(rng, d)
    if d == 4 and "Ada" in name and op["g"] in {"cu_one", "h"} and rng.random() < 0.8:
        op = {"g": "r", "t": [0], "c": None, "dag": False, "p": [0, 3, gen.angle(rng, 7), gen.angle(rng, 7)]}
    spec = {"dims": ds, "ops": [op]}
    ctx.case({"device": desc, "pass": name, "spec": spec}, [desc, name, gen.sig(spec), str(op.get("p"))])
    be = make()
    gate = sut.build(spec).instructions[0]
    before = np.asarray(gate.to_matrix(0))
    p0 = device.perm(device.placement(be, 0, d))
    edges = device.couplings(be, 0)
    with device.limited(12):
        out = get(name)(be).transpile_gate(gate)
    p1 = device.perm(device.placement(be, 0, d))
    u = ref.op_unitary(op, ds)
    ctx.check(ref.dist(np.asarray(gate.to_matrix(0)), before) == 0, f"{name} changes the gate it is given")
    if name.startswith("Phy"):
        want = p1 @ u @ p0.T
        pulses(ctx, edges, out, name, {"device": desc, "op": op})
    else:
        want = u
    if name != "PhyLocAdaPass":
        ctx.check(ref.dist(p0, p1) == 0, f"{name} moves levels")
    got = device.product(out, ds)
    e = ref.phase_dist(got, want)
    ctx.check(e < TOL, f"{name}: the compiled gate is off by {e:.3g}", device=desc, op=op, placement=device.placement(be, 0, d))
    if not np.allclose(p0, np.eye(d)):
        ctx.ev("moved_placements")
    if ref.dist(p0, p1) > 0:
        ctx.ev("placement_changes")
    ctx.ev(name)
    ctx.seen("graph", [sorted(map(sorted, edges)), d])
    ctx.mx("error", e)


def circuits(ctx, rng):
    """Whole circuits: order, lines and untouched gates; the placements left behind say where the levels are."""
    name = str(rng.choice(PASSES))
    desc, make, ds = device_for(ctx, rng, int(rng.integers(1, 4)), 4 if name.endswith("QRPass") else 3)
    n = len(ds)
    ops = []
    for _ in range(int(rng.integers(2, 7 if name.endswith("QRPass") else 5))):
        q = int(rng.integers(n))
        ops.append(device.local_op(rng, ds[q], q))
    entangle = n > 1 and name != "PhyLocAdaPass" and rng.random() < 0.5
    if entangle:
        ops.insert(int(rng.integers(len(ops))), gen.op(rng, ds, ["csum", "cx", "ls", "ms"], dag=0.0))
    spec = {"dims": ds, "ops": ops}
    ctx.case({"device": desc, "pass": name, "spec": spec}, [desc, name, gen.sig(spec)])
    be = make()
    circ = sut.build(spec)
    ids = [id(g) for g in circ.instructions]
    m0 = device.placements(be, ds)
    edges = [device.couplings(be, q) for q in range(n)]
    with device.limited(15):
        new = get(name)(be).transpile(circ)
    m1 = device.placements(be, ds)
    ctx.check([id(g) for g in circ.instructions] == ids and ref.dist(device.product(circ.instructions, ds), ref.unitary(spec)) < 1e-9,
              f"{name} changes the circuit it is given", spec=spec)
    ctx.check(list(new.dimensions) == ds and new.num_qudits == n, f"{name} changes the lines", spec=spec)
    if name.startswith("Phy") and not entangle:
        for q in range(n):
            pulses(ctx, edges[q], [g for g in new.instructions if g.reference_lines == [q]], name, {"device": desc, "spec": spec})
        want = m1 @ ref.unitary(spec) @ m0.T
    elif name.startswith("Phy"):
        # the pass leaves two-qudit gates as they are, on the levels as written
        want = np.eye(int(np.prod(ds)), dtype=complex)
        for o in ops:
            u = ref.embed(o, ds, list(range(n)))
            want = (u if len(o["t"]) == 2 else m0 @ u @ m0.T) @ want
    else:
        want = ref.unitary(spec)
    e = ref.phase_dist(device.product(new.instructions, ds), want)
    ctx.check(e < TOL, f"{name}: the compiled circuit is off by {e:.3g}", device=desc, spec=spec)
    ctx.ev(f"circuit_{name}")
    ctx.ev("entangled", entangle)
    ctx.mx("error", e)


def virtual(ctx, rng):
    """Adaptive decomposition with phases kept on the graph: what is emitted at the end accounts for them."""
    desc, make, ds = device_for(ctx, rng, 1, 3)
    d = ds[0]
    ops = [device.local_op(rng, d) for _ in range(int(rng.integers(2, 4)))]
    spec = {"dims": ds, "ops": ops}
    ctx.case({"device": desc, "spec": spec}, [desc, gen.sig(spec)])
    be = make()
    circ = sut.build(spec)
    p0 = device.perm(device.placement(be, 0, d))
    out = []
    with device.limited(15):
        for i, g in enumerate(circ.instructions):
            out += get("PhyLocAdaPass")(be, vrz_prop=i < len(ops) - 1).transpile_gate(g)
    p1 = device.perm(device.placement(be, 0, d))
    e = ref.phase_dist(device.product(out, ds), p1 @ ref.unitary(spec) @ p0.T)
    ctx.check(e < 2 * TOL, f"with phases kept virtual the sequence is off by {e:.3g}", device=desc, spec=spec)
    ctx.ev("virtual")


KINDS = {
    "one": {"fn": one, "quick": 2400, "thorough": 12000},
    "circuits": {"fn": circuits, "quick": 700, "thorough": 3000},
    "virtual": {"fn": virtual, "quick": 300, "thorough": 1500},
}
REQUIRED = {p: 60 for p in PASSES} | {f"circuit_{p}": 15 for p in PASSES} | {
    "pulses": 1500, "moved_placements": 80, "placement_changes": 30, "virtual": 30, "#graph": 40, "entangled": 15}
ASSUMPTIONS = [
    "numpy's dense complex arithmetic",
    "pulses are compared up to a global phase and 2e-3, since the passes drop phases below 1e-4",
]
BUDGET = {"quick": 100, "thorough": 660}
