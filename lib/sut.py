"""Building and observing the system under test through its public API."""
from __future__ import annotations

import numpy as np

from lib import ref


def quiet_import():
    import matplotlib

    matplotlib.use("Agg")


def build(spec: dict):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components.quantum_register import QuantumRegister

    dims = spec["dims"]
    regs = spec.get("regs")
    if regs:
        circ = QuantumCircuit()
        pos = 0
        for name, size in regs:
            circ.append(QuantumRegister(name, size, list(dims[pos : pos + size])))
            pos += size
    else:
        circ = QuantumCircuit(len(dims), list(dims), 0)
    for op in spec["ops"]:
        add(circ, op)
    return circ


def add(circ, op: dict):
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData

    g, t, p, c = op["g"], op["t"], op.get("p"), op.get("c")
    dims = circ.dimensions
    tgt = t[0] if g in ref_single else list(t)
    args: list = [tgt]
    if g in ("cu_one", "cu_two", "cu_multi"):
        n = int(np.prod([dims[q] for q in t]))
        args.append(ref.haar(n, op["u"]))
    elif p is not None:
        args.append(list(p) if isinstance(p, (list, tuple)) else p)
    fn = getattr(circ, g)
    if c and not op.get("late"):
        gate = fn(*args, ControlData(list(c[0]), list(c[1])))
    else:
        gate = fn(*args)
        if c:
            gate.control(list(c[0]), list(c[1]))
    if op.get("dag"):
        gate.dag()
    return gate


ref_single = {"x", "z", "h", "s", "r", "rz", "rh", "virtrz", "noisex", "noisey", "noisez", "pm", "gellmann", "cu_one"}


TAGS = {"r": "rxy", "csum": "csum", "cx": "cx", "h": "h", "ls": "ls", "ms": "ms", "noisex": "noisex", "noisey": "noisey",
        "pm": "pm", "rh": "rh", "rz": "rz", "virtrz": "virtrz", "s": "s", "x": "x", "z": "z"}


def attributes(ctx, o, g, ds, **info):  # noqa: ANN001, ANN003, ANN201
    """One gate against what the program says, without a matrix of the whole register."""
    t = g.target_qudits if isinstance(g.target_qudits, list) else [g.target_qudits]
    ctx.check(g.qasm_tag == TAGS.get(o["g"], g.qasm_tag), f"{o['g']} is read as {g.qasm_tag}", op=o, **info)
    ctx.check(list(t) == list(o["t"]), f"{o['g']} is read on other lines", op=o, got=list(t), **info)
    c = g.control_info["controls"]
    got = None if c is None else sorted(zip(c.indices, c.ctrl_states))
    want = sorted(zip(*o["c"])) if o.get("c") else None
    ctx.check(got == want, f"{o['g']} is read with other controls", op=o, got=got, **info)
    ctx.check(sorted(g.reference_lines) == sorted(ref.lines_of(o)), f"{o['g']} is read on other lines", op=o, **info)
    ls = ref.lines_of(o)
    ls = list(range(min(ls), max(ls) + 1))
    if np.prod([float(ds[q]) for q in ls]) <= 130:
        at = {q: i for i, q in enumerate(ls)}
        loc = {**o, "t": [at[q] for q in o["t"]], "c": [[at[q] for q in o["c"][0]], o["c"][1]] if o.get("c") else None}
        e = ref.dist(np.asarray(g.to_matrix(1)), ref.embed(loc, [ds[q] for q in ls], list(range(len(ls)))))
        ctx.check(e < 1e-8, f"{o['g']} is off by {e:.3g}", op=o, **info)
        ctx.ev("small matrices")
