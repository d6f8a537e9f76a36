"""C03: a gate acts on exactly the qudits and control levels asked for, and as the identity elsewhere."""
from __future__ import annotations

import numpy as np

from lib import gen, ref, sut

PID = "C03"
RULE = (
    "random gate on random distinct targets and controls (any order, adjacent or far apart) of a mixed-dimension register of 1..5 "
    "qudits, controls given at construction or added later; distinct by kind, dimensions, targets and controls"
)
TOL = 1e-8


def embed(ctx, rng):
    ds = gen.dims(rng, 5, 4, 72)
    op = gen.op(rng, ds, gen.ALL if len(ds) > 1 else gen.SINGLE, ctrl=0.6)
    spec = {"dims": ds, "ops": [op]}
    if rng.random() < 0.3:
        spec["regs"] = gen.registers(rng, len(ds))
    ctx.case(spec, gen.sig(spec))
    circ = sut.build(spec)
    g = circ.instructions[0]
    lines = ref.lines_of(op)
    ctx.check(sorted(g.reference_lines) == sorted(lines), "the gate reports other lines than it was given", got=g.reference_lines, want=lines)
    full = ref.unitary({"dims": ds, "ops": [op]})
    m2 = np.asarray(g.to_matrix(2))
    ctx.check(m2.shape == full.shape, "the expanded matrix has the wrong size", got=m2.shape)
    e = ref.dist(m2, full)
    ctx.check(e < TOL, f"the expanded matrix of {op['g']} is off by {e:.3g}", spec=spec)
    sl = list(range(min(lines), max(lines) + 1))
    e = ref.dist(np.asarray(g.to_matrix(1)), ref.embed(op, ds, sl))
    ctx.check(e < TOL, f"the matrix of {op['g']} over the lines it spans is off by {e:.3g}", spec=spec)
    far = any(b - a > 1 for a, b in zip(sorted(lines), sorted(lines)[1:]))
    ctx.check(bool(g.is_long_range) == far, "the gate reports the wrong range", lines=lines)
    s = np.asarray(sut.build({**spec, "ops": gen.mixing(np.random.default_rng(7), ds) + [op]}).simulate()).ravel()
    w = ref.state({"dims": ds, "ops": gen.mixing(np.random.default_rng(7), ds) + [op]})
    e = ref.dist(s, w)
    ctx.check(e < TOL, f"applying {op['g']} to a generic state is off by {e:.3g}", spec=spec)
    ctx.ev("gates")
    ctx.seen("kind", op["g"])
    if op.get("c"):
        ctx.ev("controlled")
        ctx.seen("controls", len(op["c"][0]))
        ctx.ev("late_controls" if op.get("late") else "early_controls")
        if op["c"][0] != sorted(op["c"][0]):
            ctx.ev("unsorted_controls")
    if far:
        ctx.ev("long_range")
    if spec.get("regs"):
        ctx.ev("several_registers")


def registers(ctx, rng):
    """Qudits addressed through their registers are the lines the registers were appended as."""
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components.quantum_register import QuantumRegister

    ds = gen.dims(rng, 5, 4, 72)
    regs = gen.registers(rng, len(ds))
    spec = {"dims": ds, "ops": gen.mixing(rng, ds), "regs": regs}
    ctx.case({"dims": ds, "regs": regs}, [ds, [r[1] for r in regs]])
    objs, pos = [], 0
    circ = QuantumCircuit()
    for name, size in regs:
        q = QuantumRegister(name, size, list(ds[pos : pos + size]))
        circ.append(q)
        objs.append(q)
        pos += size
    flat = [(r, i) for r, (_n, size) in enumerate(regs) for i in range(size)]
    ctx.check(list(circ.dimensions) == ds and circ.num_qudits == len(ds), "the circuit's dimensions differ from its registers'", got=circ.dimensions)
    for r, i in flat:
        ctx.check(objs[r][i] == flat.index((r, i)), "a register element points at another line", got=objs[r][i], want=flat.index((r, i)))
    ops = []
    for _ in range(int(rng.integers(1, 6))):
        op = gen.op(rng, ds, ["x", "h", "z", "r", "csum"] if len(ds) > 1 else ["x", "h", "z", "r"], ctrl=0.0, dag=0.0)
        ops.append(op)
        at = [objs[flat[t][0]][flat[t][1]] for t in op["t"]]
        args = [at if op["g"] == "csum" else at[0]] + ([list(op["p"])] if op.get("p") is not None else [])
        getattr(circ, op["g"])(*args)
    s = np.asarray(circ.simulate()).ravel()
    e = ref.dist(s, ref.state({"dims": ds, "ops": ops}))
    ctx.check(e < TOL, f"a circuit over several registers is off by {e:.3g}", dims=ds, regs=regs, ops=ops)
    del spec
    ctx.ev("register_circuits")


def history(ctx, rng):
    """Whatever was asked of a gate before, its operator is the one its lines, controls and dagger name now."""
    ds = gen.dims(rng, 4, 4, 48)
    op = gen.op(rng, ds, gen.ALL if len(ds) > 1 else gen.SINGLE, ctrl=0.7, dag=0.0)
    op = {**op, "dag": False}
    c, late = op.get("c"), None
    if c:
        late, op = c, {**op, "c": None}
    circ = sut.build({"dims": ds, "ops": [op]})
    g = circ.instructions[0]
    steps = []
    acts = ["m0", "m1", "m2", "sim", "qasm", "dag", "copy", "grow"] + (["control"] * 2 if late else [])
    for _ in range(int(rng.integers(3, 9))):
        a = str(rng.choice(acts))
        steps.append(a)
        if a.startswith("m"):
            g.to_matrix(int(a[1]))
        elif a == "sim":
            circ.simulate()
        elif a == "qasm":
            circ.to_qasm()
        elif a == "dag":
            g.dag()
            op = {**op, "dag": not op["dag"]}
        elif a == "copy":
            circ = circ.copy()
            g = circ.instructions[0]
        elif a == "grow":
            sut.add(circ, gen.op(rng, ds, ["h", "x"], ctrl=0.0, dag=0.0))
        elif a == "control" and not op.get("c"):
            g.control(list(late[0]), list(late[1]))
            op = {**op, "c": late}
        lines = ref.lines_of(op)
        sl = list(range(min(lines), max(lines) + 1))
        want = ref.unitary({"dims": ds, "ops": [op]})
        ctx.case({"dims": ds, "op": op, "steps": steps}, [ds, op["g"], len(op.get("c") or []), steps])
        e = ref.dist(np.asarray(g.to_matrix(2)), want)
        ctx.check(e < TOL, f"after {steps} the operator of {op['g']} is off by {e:.3g}", dims=ds, op=op)
        e = ref.dist(np.asarray(g.to_matrix(1)), ref.embed(op, ds, sl))
        ctx.check(e < TOL, f"after {steps} the operator of {op['g']} over its lines is off by {e:.3g}", dims=ds, op=op)
        ctx.check(sorted(g.reference_lines) == sorted(lines), "the gate reports other lines", got=g.reference_lines, want=lines)
        ctx.ev("history_steps")
        if a == "control":
            ctx.ev("controls_after_use")


KINDS = {
    "history": {"fn": history, "quick": 300, "thorough": 6000},
    "embed": {"fn": embed, "quick": 1600, "thorough": 40000},
    "registers": {"fn": registers, "quick": 300, "thorough": 4000},
}
REQUIRED = {
    "gates": 400, "#kind": 19, "controlled": 100, "#controls": 3, "late_controls": 50, "early_controls": 40,
    "unsorted_controls": 15, "long_range": 50, "several_registers": 60, "register_circuits": 60, "history_steps": 300, "controls_after_use": 40,
}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "the definitions written in lib/ref.py"]
BUDGET = {"quick": 60, "thorough": 600}
