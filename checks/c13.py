"""C13: merging runs of single-qudit gates keeps the circuit, and the per-line view of a circuit is faithful."""
from __future__ import annotations

import numpy as np

from lib import device, gen, ref, sut

PID = "C13"
RULE = (
    "random circuit of single-qudit, controlled, two- and many-qudit gates on 1..5 lines, merged line by line, or viewed line by "
    "line; distinct by dimensions and gate structure; each case compares unitaries and the order of gates on every line"
)
TOL = 1e-7
SINGLE = [k for k in gen.SINGLE if k not in {"s", "gellmann"}]


def make(rng):
    ds = gen.dims(rng, 5, 4, 96)
    n = int(rng.integers(1, 15))
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.6 or len(ds) == 1:
            ops.append(gen.op(rng, ds, SINGLE, ctrl=0.0, dag=0.2))
        elif k < 0.75:
            ops.append(gen.op(rng, ds, ["x", "z", "r", "h"], ctrl=1.0, dag=0.2))
        elif k < 0.9 or len(ds) < 3:
            ops.append(gen.op(rng, ds, ["csum", "cx", "ls", "ms", "cu_two"], ctrl=0.0, dag=0.2))
        else:
            t = gen.ints(rng.permutation(len(ds))[: int(rng.integers(3, len(ds) + 1))])
            ops.append({"g": "cu_multi", "t": t, "c": None, "u": int(rng.integers(1 << 30)), "dag": False})
    return {"dims": ds, "ops": ops}


def touching(gates, q):
    return [g for g in gates if q in g.reference_lines]


def resynth(ctx, rng):
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass

    spec = make(rng)
    ds = spec["dims"]
    if len(ds) > 3:
        # such registers have more lines than any fake device; the pass only needs the graphs for its records
        be = device.custom([device.random_graph(rng, d) for d in ds])
    else:
        be = device.backend("faketraps3six")
    ctx.case(spec, gen.sig(spec))
    circ = sut.build(spec)
    ids = [id(g) for g in circ.instructions]
    t = ref.unitary(spec)
    new = NaiveLocResynthOptPass(be).transpile(circ)
    ctx.check([id(g) for g in circ.instructions] == ids and ref.dist(device.product(circ.instructions, ds), t) < 1e-9, "merging changes the circuit it is given", spec=spec)
    e = ref.dist(device.product(new.instructions, ds), t)
    ctx.check(e < TOL, f"merging local gates is off by {e:.3g}", spec=spec)
    s = np.asarray(new.simulate()).ravel()
    ctx.check(ref.dist(s, t[:, 0]) < TOL, "the merged circuit simulates to another state", spec=spec)
    ctx.check(new.number_gates == len(new.instructions) and list(new.dimensions) == ds, "the result counts its gates wrongly", spec=spec)
    places = [[x for x in g.log_phy_map if x < d] for g, d in zip(be.energy_level_graphs, ds)]
    ctx.check([[int(x) for x in m] for m in new.mappings] == places, "the recorded placements are not the device's", got=new.mappings, want=places, spec=spec)
    for q in range(len(ds)):
        lane = [len(g.reference_lines) == 1 for g in touching(new.instructions, q)]
        ctx.check(not any(a and b for a, b in zip(lane, lane[1:])), "neighbouring local gates are left unmerged", line=q, spec=spec)
    big = [o for o in spec["ops"] if len(ref.lines_of(o)) > 1]
    ctx.check(sum(len(g.reference_lines) > 1 for g in new.instructions) == len(big), "merging loses or adds entangling gates", spec=spec)
    if len(new.instructions) < len(circ.instructions):
        ctx.ev("merged")
    again = NaiveLocResynthOptPass(be).transpile(new)
    ctx.check(ref.dist(device.product(again.instructions, ds), t) < TOL and len(again.instructions) == len(new.instructions), "merging twice is not merging once", spec=spec)
    ctx.ev("resynths")
    if big:
        ctx.ev("with_entangling")


def lanes(ctx, rng):
    from mqt.qudits.core.lanes import Lanes

    spec = make(rng)
    ds = spec["dims"]
    ctx.case(spec, gen.sig(spec))
    circ = sut.build(spec)
    gates = circ.instructions
    view = Lanes(circ)
    for q in range(len(ds)):
        want = touching(gates, q)
        if want:
            ctx.check([id(g) for g in view.extract_lane(q)] == [id(g) for g in want], "a line's view has other gates than the line", line=q, spec=spec)
            ctx.ev("lanes")
    for i, g in enumerate(gates):
        if len(g.reference_lines) == 1:
            nxt = touching(gates[i + 1 :], g.reference_lines[0])
            want = bool(nxt) and len(nxt[0].reference_lines) == 1
            ctx.check(view.next_is_local(g) == want, "the view is wrong about what follows a gate", position=i, spec=spec)
            ctx.ev("next_local" if want else "next_not_local")
    out = view.extract_instructions()
    ctx.check(sorted(map(id, out)) == sorted(map(id, gates)), "the view loses or repeats gates", spec=spec)
    for q in range(len(ds)):
        ctx.check([id(g) for g in touching(out, q)] == [id(g) for g in touching(gates, q)], "reading the circuit back from its lines reorders a line", line=q, spec=spec)
    e = ref.dist(device.product(out, ds), ref.unitary(spec))
    ctx.check(e < TOL, f"the circuit read back from its lines is off by {e:.3g}", spec=spec)
    # replacing a run of local gates on a line by one gate
    for q in range(len(ds)):
        lane = view.index_dict.get(q, [])
        runs = [i for i, (_n, g) in enumerate(lane) if len(g.reference_lines) == 1]
        if not runs:
            continue
        a = b = int(rng.choice(runs))
        while b + 1 < len(lane) and len(lane[b + 1][1].reference_lines) == 1 and rng.random() < 0.7:
            b += 1
        m = np.eye(ds[q], dtype=complex)
        for _n, g in lane[a : b + 1]:
            m = np.asarray(g.to_matrix(0)) @ m
        from mqt.qudits.quantum_circuit.gates import CustomOne

        view.replace_gates_in_lane(q, a, b, CustomOne(circ, "merged", q, m, ds[q]))
        e = ref.dist(device.product(view.extract_instructions(), ds), ref.unitary(spec))
        ctx.check(e < TOL, f"replacing gates on a line by their product is off by {e:.3g}", line=q, run=[a, b], spec=spec)
        ctx.ev("replaced")
        break


def repeated(ctx, rng):
    """A gate object that stands several times in a circuit counts every time."""
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass

    ds = gen.dims(rng, 3, 3, 27)
    spec = gen.spec(rng, ds, SINGLE + (["csum", "cx", "ls", "ms"] if len(ds) > 1 else []), int(rng.integers(1, 5)), ctrl=0.2, dag=0.2)
    pick = gen.ints(rng.integers(len(spec["ops"]), size=int(rng.integers(2, 9))))
    ctx.case({"spec": spec, "order": pick}, [gen.sig(spec), pick])
    circ = sut.build(spec)
    circ.set_instructions([circ.instructions[i] for i in pick])
    t = ref.unitary({"dims": ds, "ops": [spec["ops"][i] for i in pick]})
    s = np.asarray(circ.simulate()).ravel()
    ctx.check(ref.dist(s, t[:, 0]) < TOL, "a circuit with a repeated gate object simulates to another state", spec=spec, order=pick)
    new = NaiveLocResynthOptPass(device.backend("faketraps3six")).transpile(circ)
    e = ref.dist(device.product(new.instructions, ds), t)
    ctx.check(e < TOL, f"merging a circuit with a repeated gate object is off by {e:.3g}", spec=spec, order=pick)
    ctx.ev("repeated")


KINDS = {
    "resynth": {"fn": resynth, "quick": 800, "thorough": 20000},
    "lanes": {"fn": lanes, "quick": 800, "thorough": 20000},
    "repeated": {"fn": repeated, "quick": 200, "thorough": 4000},
}
REQUIRED = {"resynths": 200, "merged": 100, "with_entangling": 100, "lanes": 400, "next_local": 200, "next_not_local": 200, "replaced": 100, "repeated": 40}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "the definitions written in lib/ref.py"]
BUDGET = {"quick": 60, "thorough": 500}
