"""C07: a circuit written as QASM and read back is the same circuit."""
from __future__ import annotations

import os
import re
import tempfile

import numpy as np

from lib import gen, ref, sut

PID = "C07"
RULE = (
    "random circuit with random registers, written to text or to a file and read back into a fresh or used circuit; distinct by "
    "registers, dimensions and list of (gate, lines, controls, dagger); each case compares unitaries and the second text"
)
TOL = 1e-9
PLAIN = [k for k in gen.ALL if not k.startswith("cu")]


def mat(circ) -> np.ndarray:
    u = np.eye(int(np.prod(circ.dimensions)), dtype=complex)
    for g in circ.instructions:
        u = np.asarray(g.to_matrix(2)) @ u
    return u


def random_spec(ctx, rng, kinds, dag, nops=(1, 9)):
    ds = gen.dims(rng, 4, 6, 64)
    spec = gen.spec(rng, ds, kinds, int(rng.integers(*nops)), ctrl=0.4, dag=dag)
    for o in spec["ops"]:
        # angles that print in different ways
        if o["g"] in {"r", "rz", "virtrz"} and rng.random() < 0.3:
            o["p"][-1] = [1e-5, -2.5e-7, 3e20 % 7, float(np.float64(1.25)), -0.0, 0.1 + 0.2, 6.0][int(rng.integers(7))]
    if rng.random() < 0.7:
        spec["regs"] = gen.registers(rng, len(ds))
    ctx.case(spec, [spec.get("regs"), gen.sig(spec)])
    return spec


def judge(ctx, spec, back, what):
    ctx.check(list(back.dimensions) == spec["dims"], f"{what}: dimensions change", spec=spec, got=back.dimensions)
    ctx.check(back.num_qudits == len(spec["dims"]), f"{what}: the number of qudits changes", spec=spec)
    ctx.check(len(back.instructions) == len(spec["ops"]) and back.number_gates == len(spec["ops"]),
              f"{what}: the number of gates changes", spec=spec, got=len(back.instructions))
    dagged = False
    for o, g in zip(spec["ops"], back.instructions):
        want = ref.embed(o, spec["dims"], list(range(len(spec["dims"]))))
        got = np.asarray(g.to_matrix(2))
        e = ref.dist(got, want)
        if e > TOL and o.get("dag"):
            bare = ref.embed({**o, "dag": False}, spec["dims"], list(range(len(spec["dims"]))))
            if ref.dist(got, bare) < TOL:
                ctx.known("qasm-dagger")
                dagged = True
                continue
        ctx.check(e < TOL, f"{what}: gate {o['g']} differs by {e:.3g}", spec=spec, op=o)
        ctx.check(set(g.reference_lines) == set(ref.lines_of(o)), f"{what}: gate {o['g']} moves to other lines", spec=spec, op=o)
        ctx.seen("kind", o["g"])
        if o.get("c"):
            ctx.ev("controlled")
    return dagged


def text(ctx, rng):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    spec = random_spec(ctx, rng, PLAIN, 0.0 if rng.random() < 0.8 else 0.4)
    circ = sut.build(spec)
    before = mat(circ)
    t = circ.to_qasm()
    ctx.check(circ.to_qasm() == t, "two exports differ", spec=spec)
    ctx.check(ref.dist(mat(circ), before) == 0, "exporting changed the circuit", spec=spec)
    back = QuantumCircuit()
    back.from_qasm(t)
    dagged = judge(ctx, spec, back, "text")
    if not dagged:
        u = ref.unitary(spec)
        ctx.check(ref.dist(mat(back), u) < 1e-8, "the circuit read back computes something else", spec=spec)
        s = np.asarray(back.simulate()).ravel()
        ctx.check(ref.dist(s, u[:, 0]) < 1e-8, "the circuit read back simulates to something else", spec=spec)
    ctx.check(back.to_qasm() == t, "the text changes in a second round trip", spec=spec, first=t, second=back.to_qasm())
    regs = [(r.label, r.size) for r in back.quantum_registers]
    want = [tuple(r) for r in spec.get("regs") or [["q", len(spec["dims"])]]]
    ctx.check(regs == want, "the registers change", spec=spec, got=regs)
    ctx.ev("text")
    ctx.ev("registers", len(want))


def used(ctx, rng):
    """Reading into a circuit that already has content replaces it."""
    old = gen.spec(rng, gen.dims(rng, 3, 4, 30), PLAIN, 4)
    spec = random_spec(ctx, rng, PLAIN, 0.0)
    if rng.random() < 0.5:
        old["regs"] = gen.registers(rng, len(old["dims"]))
    circ = sut.build(old)
    circ.from_qasm(sut.build(spec).to_qasm())
    judge(ctx, spec, circ, "into a used circuit")
    # the circuit stays usable
    extra = gen.op(rng, spec["dims"], PLAIN if len(spec["dims"]) > 1 else ["r"], dag=0.0)
    sut.add(circ, extra)
    full = {**spec, "ops": [*spec["ops"], extra]}
    ctx.check(ref.dist(mat(circ), ref.unitary(full)) < 1e-8, "adding to a loaded circuit computes something else", spec=full)
    again = sut.build({"dims": [2], "ops": []})
    again.from_qasm(circ.to_qasm())
    judge(ctx, full, again, "after extension")
    ctx.ev("used")


def files(ctx, rng):
    """Files, several circuits in one folder, custom matrices included."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    with tempfile.TemporaryDirectory(dir=ctx.scratch) as d:
        specs, paths = [], []
        for k in range(int(rng.integers(1, 4))):
            spec = random_spec(ctx, rng, gen.ALL if k else ["cu_one", "cu_two", "cu_multi", "r", "csum"], 0.0)
            specs.append(spec)
            circ = sut.build(spec)
            before = mat(circ)
            paths.append(circ.save_to_file(f"prog{k}", d))
            ctx.check(ref.dist(mat(circ), before) == 0, "saving changed the circuit", spec=spec)
            ctx.check(os.path.exists(paths[-1]), "save_to_file names a file that is not there", path=paths[-1])
        for spec, p in zip(specs, paths):
            back = QuantumCircuit()
            back.load_from_file(p)
            judge(ctx, spec, back, "file")
            if any(o["g"].startswith("cu") for o in spec["ops"]):
                ctx.ev("custom_matrices")
                # a second generation, from the loaded circuit
                q = back.save_to_file("second", d)
                third = QuantumCircuit()
                third.load_from_file(q)
                judge(ctx, spec, third, "second file")
    ctx.ev("files")


def wide(ctx, rng):
    """Many lines, many levels: compared gate by gate."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    n = int(rng.integers(9, 30))
    ds = [int(rng.integers(2, 15)) if rng.random() < 0.7 else int(rng.integers(10, 27)) for _ in range(n)]
    spec = gen.spec(rng, ds, PLAIN, int(rng.integers(4, 14)), ctrl=0.5, dag=0.0, max_ctrl=n)
    if rng.random() < 0.7:
        spec["regs"] = gen.registers(rng, n)
    ctx.case(spec, [spec.get("regs"), gen.sig(spec)])
    circ = sut.build(spec)
    t = circ.to_qasm()
    back = QuantumCircuit()
    back.from_qasm(t)
    ctx.check(list(back.dimensions) == ds, "dimensions change", spec=spec, got=back.dimensions)
    ctx.check(len(back.instructions) == len(spec["ops"]), "the number of gates changes", spec=spec)
    for o, g in zip(spec["ops"], back.instructions):
        sut.attributes(ctx, o, g, ds, spec=spec)
    ctx.check(back.to_qasm() == t, "the text changes in a second round trip", spec=spec)
    ctx.ev("wide")


def many_custom(ctx, rng):
    """Many custom gates of one kind in one file keep their own matrices."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    ds = [2, 3]
    ops = [{"g": "cu_one", "t": [int(rng.integers(2))], "c": None, "u": int(rng.integers(1 << 30))} for _ in range(40)]
    spec = {"dims": ds, "ops": ops}
    ctx.case({"dims": ds, "custom": 40}, ops)
    with tempfile.TemporaryDirectory(dir=ctx.scratch) as d:
        p = sut.build(spec).save_to_file("many", d)
        names = re.findall(r"\(([^)]*\.npy)\)", open(p).read())  # noqa: SIM115
        if len(set(names)) != len(names):
            ctx.ev("name_collision")
        back = QuantumCircuit()
        back.load_from_file(p)
        judge(ctx, spec, back, "many custom gates")
    ctx.ev("many_custom")


KINDS = {
    "text": {"fn": text, "quick": 1500, "thorough": 30000},
    "used": {"fn": used, "quick": 400, "thorough": 6000},
    "files": {"fn": files, "quick": 250, "thorough": 4000},
    "wide": {"fn": wide, "quick": 300, "thorough": 6000},
    "many_custom": {"fn": many_custom, "quick": 16, "thorough": 60},
}
REQUIRED = {"text": 300, "used": 80, "files": 50, "custom_matrices": 20, "controlled": 200, "#kind": 17, "many_custom": 4, "wide": 60}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "the definitions written in lib/ref.py"]
BUDGET = {"quick": 60, "thorough": 600}
