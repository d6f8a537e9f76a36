"""C11: whole-circuit compilation keeps the computation, on the placements it records."""
from __future__ import annotations

import numpy as np

from lib import device, gen, ref, sut
from lib.harness import Skip

PID = "C11"
RULE = (
    "random circuit of local and entangling gates on 1..3 qudits compiled at each optimisation level (or by named passes) for a fake "
    "backend or for random level graphs and placements; distinct by device, level and gate structure; each case compares the whole "
    "unitary and the remapped distribution, and that circuit and earlier results stay as they were"
)
TOL = 3e-3
LOCAL = ["h", "z", "r", "rz", "virtrz", "x", "rh", "pm", "cu_one", "s"]
ENT = ["csum", "cx", "ls", "ms", "ctrl"]
LEVELS = ["O0", "O1", "O2", "method_O0", "method_O1", "phy_ada", "phy_qr", "log", "nothing"]


PLACED = ["PhyLocQRPass", "LocQRPass"]
LISTS = ["LogLocQRPass", "LogEntQRCEXPass", "PhyEntQRCEXPass", *PLACED]
OPTIONAL = ["ZPropagationOptPass", "ZRemovalOptPass"]


def device_for(rng, n, methods):
    if methods or rng.random() < 0.5:
        name = str(rng.choice(device.FAKE))
        be = device.backend(name)
        n = min(n, len(be.energy_level_graphs))
        ds = []
        for q in range(n):
            ok = [d for d in (2, 3, 4) if device.usable(be, q, d)]
            if not ok:
                raise Skip("no usable levels")
            ds.append(int(rng.choice(ok)))
        make = lambda: device.backend(name)  # noqa: E731
        desc = name
    else:
        ds = gen.ints(rng.integers(2, 4, n))
        graphs = [device.random_graph(rng, d) for d in ds]
        make = lambda: device.custom(graphs)  # noqa: E731
        desc = graphs
    if np.prod(ds) > 27:
        raise Skip("too large")
    return desc, make, ds


def ops_for(rng, ds, level):
    n = len(ds)
    ops = []
    for _ in range(int(rng.integers(1, 6)) if max(ds) > 3 or rng.random() < 0.8 else int(rng.integers(6, 13))):
        k = "ent" if n > 1 and rng.random() < 0.4 else "loc"
        if k == "loc":
            q = int(rng.integers(n))
            kinds = [x for x in LOCAL if x != "s" or ref.is_prime(ds[q])]
            o = gen.op(rng, [ds[q]], kinds, ctrl=0.0, dag=0.3)
            if level == "O2" and ds[q] > 3 and o["g"] in {"h", "cu_one", "x", "pm"}:
                o = {"g": "r", "t": [0], "c": None, "dag": False, "p": [1, 2, gen.angle(rng, 7), gen.angle(rng, 7)]}
            ops.append({**o, "t": [q]})
        elif rng.random() < 0.25:
            o = gen.op(rng, ds, ["x", "r", "z"], ctrl=1.0, dag=0.2)
            if len(o["c"][0]) > 1:
                o = {**o, "c": [o["c"][0][:1], o["c"][1][:1]]}
            ops.append(o)
        else:
            ops.append(gen.op(rng, ds, ENT[:4], ctrl=0.0, dag=0.3))
    return ops


def run(level, be, circ, name):
    from mqt.qudits.compiler import QuditCompiler

    qc = QuditCompiler()
    if level == "method_O0":
        return circ.compileO0(name)
    if level == "method_O1":
        return circ.compileO1(name)
    if level == "phy_ada":
        return qc.compile(be, circ, ["PhyLocAdaPass", "PhyEntQRCEXPass"])
    if level == "phy_qr":
        return qc.compile(be, circ, ["PhyEntQRCEXPass", "PhyLocQRPass"])
    if level == "log":
        return qc.compile(be, circ, ["LogLocQRPass", "LogEntQRCEXPass"])
    if level == "nothing":
        return qc.compile(be, circ, [])
    if level.startswith(("optional", "passes")):
        return qc.compile(be, circ, level.split()[1:])
    return getattr(qc, "compile_" + level)(be, circ)


def state(be):
    """Everything the backend says about its levels."""
    return [
        (sorted((min(a, b), max(a, b), sorted(d.items())) for a, b, d in g.edges(data=True)),
         {n: {k: v for k, v in d.items() if k != "phase_storage" or v} for n, d in g.nodes(data=True)}, list(g.log_phy_map), g.qudit_index)
        for g in be.energy_level_graphs
    ]


def recorded(new, ds):
    """The placements a compiled circuit records, as one permutation of the states."""
    u = np.eye(1)
    for m, d in zip(new.mappings, ds):
        if sorted(int(x) for x in m) != list(range(d)):
            raise ValueError(f"recorded placement {m}")
        u = np.kron(u, device.perm([int(x) for x in m]))
    return u


def judge(ctx, new, target, m0, ds, what, logical=False, **info):
    from mqt.qudits.visualisation.plot_information import remap_result

    got = device.product(new.instructions, ds)
    ok = len(new.mappings) == len(ds) and all(sorted(int(x) for x in m) == list(range(d)) for m, d in zip(new.mappings, ds))
    ctx.check(ok, f"{what}: the recorded placements are no placements", got=new.mappings, **info)
    m1 = recorded(new, ds)
    want = target if logical else m1 @ target @ m0.T
    remap = not logical
    e = ref.phase_dist(got, want)
    ctx.check(e < TOL, f"{what}: the compiled circuit is off by {e:.3g}", **info)
    ctx.mx("error", e)
    if logical or what in {"O0", "O1", "phy_qr"}:
        ctx.check(np.array_equal(m1, m0), f"{what}: the recorded placements are not the device's", got=new.mappings, **info)
    if remap:
        # a run starts in the physical state 0, which is the logical state placed there
        p = np.abs(np.asarray(new.simulate()).ravel()) ** 2
        e = ref.dist(np.asarray(remap_result(p, new)).ravel(), np.abs(target @ m0.T[:, 0]) ** 2)
        ctx.check(e < TOL, f"{what}: the distribution read back through the placements is off by {e:.3g}", **info)
        ctx.ev("remapped")


def pipeline(ctx, rng):
    level = str(rng.choice(LEVELS))
    if level == "nothing" and rng.random() < 0.6:
        level = "optional " + " ".join(rng.permutation(OPTIONAL)[: int(rng.integers(1, 3))])
    desc, make, ds = device_for(rng, int(rng.integers(1, 4)), level.startswith("method"))
    ops = ops_for(rng, ds, level)
    spec = {"dims": ds, "ops": ops}
    be = make()
    circ = sut.build(spec)
    pick = None
    if rng.random() < 0.2:
        # the same gate objects stand in the circuit several times
        pick = gen.ints(rng.integers(len(ops), size=int(rng.integers(2, 8))))
        circ.set_instructions([circ.instructions[i] for i in pick])
        spec = {"dims": ds, "ops": [ops[i] for i in pick]}
        ctx.ev("repeated gates")
    ctx.case({"device": desc, "level": level, "spec": spec, "objects": pick}, [desc, level, gen.sig(spec), pick is None])
    ids = [id(g) for g in circ.instructions]
    t = ref.unitary(spec)
    m0 = device.placements(be, ds)
    edges = [device.couplings(be, q) for q in range(len(ds))]
    was = state(be)
    with device.limited(25):
        new = run(level, be, circ, desc)
    ctx.check(state(be) == was, f"{level} changes the device it compiles for", device=desc, spec=spec)
    info = {"device": desc, "spec": spec}
    ctx.check([id(g) for g in circ.instructions] == ids and ref.dist(device.product(circ.instructions, ds), t) < 1e-9, f"{level} changes the circuit it compiles", **info)
    ctx.check(circ.mappings is None, f"{level} leaves placements on the circuit it compiles", **info)
    ctx.check(list(new.dimensions) == ds and new.number_gates == len(new.instructions), f"{level}: the result has other lines or counts its gates wrongly", **info)
    logical = level in {"log", "nothing"} or level.startswith("optional")
    judge(ctx, new, t, m0, ds, level, logical, **info)
    m1 = recorded(new, ds)
    ent = any(len(ref.lines_of(o)) > 1 for o in spec["ops"])
    if level in {"O0", "O1", "O2", "phy_ada", "phy_qr"}:
        for g in new.instructions:
            if len(g.reference_lines) == 1:
                ctx.check(g.qasm_tag in {"rxy", "virtrz", "rz"} | ({"rh"} if ent else set()), f"{level} leaves a gate no device has", gate=g.qasm_tag, **info)
                ctx.ev("native")
                if g.qasm_tag == "rxy" and not ent:
                    q = g.reference_lines[0]
                    ctx.check(frozenset((g.lev_a, g.lev_b)) in edges[q], f"{level} drives levels {g.lev_a},{g.lev_b}, which are not coupled", **info)
                    ctx.ev("driven")
    if not np.allclose(m0, m1):
        ctx.ev("placement_changes")
    if not np.allclose(m0, np.eye(len(m0))):
        ctx.ev("moved_placements")
    if ent:
        ctx.ev("entangling")
    ctx.ev(level.split()[0])
    ctx.seen("device", desc)


def lists(ctx, rng):
    """Any list of passes: none or some of each kind, in any order, by any of their names."""
    if rng.random() < 0.25:
        # the adaptive pass by its other name, and alone where nothing entangles
        desc, make, ds = device_for(rng, 2, False)
        ops = [o for o in ops_for(rng, ds, "O2")[:4]]
        names = ["LocAdaPass", "PhyEntQRCEXPass"][: 1 if all(len(ref.lines_of(o)) == 1 for o in ops) else 2]
        names = [str(x) for x in rng.permutation(names)]
        kept = set()
    else:
        # levels in their own places: every mixture of logical and physical passes means the same
        if rng.random() < 0.4:
            ds = gen.ints(rng.integers(2, 4, int(rng.integers(1, 3))))
            desc = [{**device.random_graph(rng, d), "map": list(range(d))} for d in ds]
            make = lambda: device.custom(desc)  # noqa: E731
        else:
            desc = str(rng.choice(device.FAKE[1:]))
            make = lambda: device.backend(desc)  # noqa: E731
            ok = [d for d in (2, 3, 4, 5) if device.usable(make(), 0, d)]
            if not ok:
                raise Skip("no usable levels")
            ds = [int(x) for x in rng.choice(ok, int(rng.integers(1, 3)))]
        ops = ops_for(rng, ds, "O0")[:5]
        names = [str(x) for x in rng.choice(LISTS, int(rng.integers(0, 4)))]
        kept = ({1} if not any("Loc" in x for x in names) else set()) | ({2} if not any("Ent" in x for x in names) else set())
    spec = {"dims": ds, "ops": ops}
    ctx.case({"device": desc, "passes": names, "spec": spec}, [desc, names, gen.sig(spec)])
    be = make()
    circ = sut.build(spec)
    m0, was = device.placements(be, ds), state(be)
    with device.limited(25):
        new = run(" ".join(["passes", *names]), be, circ, desc)
    judge(ctx, new, ref.unitary(spec), m0, ds, "compiling by a list of passes", device=desc, spec=spec, passes=names)
    ctx.check(state(be) == was, "compiling by a list of passes changes the device", device=desc, spec=spec, passes=names)
    for k in kept:
        # gates no pass is responsible for stay, in order
        want = [(g.qasm_tag, list(g.reference_lines), g.dagger) for g in circ.instructions if len(g.reference_lines) == k]
        got = [(g.qasm_tag, list(g.reference_lines), g.dagger) for g in new.instructions if len(g.reference_lines) == k]
        if k == 2 or not any(len(g.reference_lines) == 2 for g in circ.instructions):
            ctx.check(got == want, "gates that no pass of the list is for are changed", got=got, want=want, passes=names, spec=spec)
            ctx.ev("kept")
    for x in names:
        ctx.seen("pass", x)
    ctx.ev("lists")


def twice(ctx, rng):
    """One backend compiles several circuits: each as if it were the first, and earlier results do not move."""
    desc, make, ds = device_for(rng, int(rng.integers(1, 3)), False)
    be = make()
    m0, was = device.placements(be, ds), state(be)
    done = []
    for _ in range(3):
        if rng.random() < 0.3:
            # a circuit with more lines than the device has fails on the way
            lines = len(be.energy_level_graphs) + 1
            large = {"dims": [ds[0]] * lines, "ops": [*(gen.op(rng, ds[:1], ["h", "r", "x", "cu_one"], ctrl=0.0) for _ in range(2)), {"g": "h", "t": [lines - 1], "c": None}]}
            how = str(rng.choice(["O0", "O2", "O2", "phy_ada"]))
            try:
                with device.limited(20):
                    run(how, be, sut.build(large), desc)
            except IndexError:
                ctx.ev("failed compilations")
            ctx.check(state(be) == was, f"{how} that fails changes the device", device=desc, spec=large)
        level = str(rng.choice(["O0", "O1", "O2"]))
        ops = ops_for(rng, ds, "O2")[:3]
        spec = {"dims": ds, "ops": ops}
        ctx.case({"device": desc, "level": level, "spec": spec, "before": len(done)}, [desc, level, gen.sig(spec), len(done)])
        with device.limited(20):
            new = run(level, be, sut.build(spec), desc)
        t = ref.unitary(spec)
        judge(ctx, new, t, m0, ds, level, device=desc, spec=spec)
        ctx.check(state(be) == was, f"{level} changes the device for the circuits that follow", device=desc, spec=spec)
        done.append((new, device.product(new.instructions, ds), [list(m) for m in new.mappings]))
    for new, u, maps in done:
        ctx.check(ref.dist(device.product(new.instructions, ds), u) < 1e-12 and [list(m) for m in new.mappings] == maps,
                  "compiling another circuit changed an earlier result", device=desc)
    ctx.ev("sequences")


def again(ctx, rng):
    """Circuits made of few gate objects, each standing in several places with other neighbours."""
    desc, make, ds = device_for(rng, 2, False)
    if len(ds) < 2 or np.prod(ds) > 12:
        raise Skip("one line or many levels")
    ops = [gen.op(rng, ds, ["cx", "csum", "ls"], ctrl=0.0, dag=0.3) if rng.random() < 0.8 else gen.op(rng, ds, ["x", "r"], ctrl=1.0, dag=0.2)]
    for q in gen.ints(rng.integers(2, size=2)):
        ops.append({**gen.op(rng, [ds[q]], ["r", "virtrz", "rz", "h", "cu_one"], ctrl=0.0, dag=0.3), "t": [q]})
    pick = gen.ints(rng.integers(len(ops), size=int(rng.integers(4, 8))))
    if rng.random() < 0.5:
        # one local gate before an entangling gate and before another local gate
        pick = [1, 0, 1, 2, *pick[:2]]
        ops[2]["t"] = [0]
        q = ops[0]["t"][-1]
        for i in (1, 2):
            ops[i] = {**gen.op(rng, [ds[q]], ["r", "h", "cu_one"], ctrl=0.0, dag=0.3), "t": [q]}
    spec = {"dims": ds, "ops": [ops[i] for i in pick]}
    level = "O2" if rng.random() < 0.7 else str(rng.choice(["O0", "O1"]))
    ctx.case({"device": desc, "level": level, "spec": spec, "objects": pick}, [desc, level, gen.sig(spec)])
    circ = sut.build({"dims": ds, "ops": ops})
    circ.set_instructions([circ.instructions[i] for i in pick])
    be = make()
    m0, was = device.placements(be, ds), state(be)
    with device.limited(20):
        new = run(level, be, circ, desc)
    t = ref.unitary(spec)
    judge(ctx, new, t, m0, ds, level, device=desc, spec=spec, objects=pick)
    ctx.check(state(be) == was, f"{level} changes the device it compiles for", device=desc, spec=spec)
    ctx.ev("again")


def multi(ctx, rng):
    """Gates on more than two qudits are not compiled; they stay, in their place among the others."""
    level = str(rng.choice(["O0", "O1", "O2"]))
    name = "faketraps3six"
    custom = rng.random() < 0.4 and level != "O2"
    be = device.backend(name)
    if custom:
        ds = gen.ints(rng.integers(2, 4, 3))
        graphs = [device.random_graph(rng, d) for d in ds]
        be = device.custom(graphs)
        desc = graphs
    else:
        ds = [int(rng.choice([d for d in (2, 3) if device.usable(be, q, d)] or [3])) for q in range(3)]
        desc = name
    ops = ops_for(rng, ds, level)[:3]
    t3 = gen.ints(rng.permutation(3))
    big = {"g": "cu_multi", "t": t3, "c": None, "u": int(rng.integers(1 << 30)), "dag": bool(rng.random() < 0.3)}
    if rng.random() < 0.5:
        big = {"g": "x", "t": t3[:1], "c": [t3[1:], [int(rng.integers(ds[q])) for q in t3[1:]]], "dag": False}
    # at O2 only what comes first stands where the levels are still in their places
    ops.insert(0 if level == "O2" else int(rng.integers(len(ops) + 1)), big)
    spec = {"dims": ds, "ops": ops}
    ctx.case({"device": desc, "level": level, "spec": spec}, [desc, level, gen.sig(spec)])
    circ = sut.build(spec)
    m = device.placements(be, ds)
    with device.limited(25):
        new = run(level, be, circ, name)
    got = device.product(new.instructions, ds)
    t = ref.unitary(spec)
    ctx.check(sum(len(g.reference_lines) > 2 for g in new.instructions) == 1, f"{level} loses or repeats a gate on three lines", device=desc, spec=spec)
    if level == "O2":
        e = ref.phase_dist(got, recorded(new, ds) @ t @ m.T)
        ctx.check(e < TOL, f"{level}: a circuit that begins with a three-qudit gate is off by {e:.3g}", device=desc, spec=spec)
        ctx.ev("multi_first")
        return
    e = ref.phase_dist(got, m @ t @ m.T)
    if e >= TOL and not np.allclose(m, np.eye(len(m))):
        alt = np.eye(len(m), dtype=complex)
        for o in ops:
            u = ref.embed(o, ds, [0, 1, 2])
            alt = (u if o is big else m @ u @ m.T) @ alt
        ctx.check(ref.phase_dist(got, alt) < TOL, f"{level}: a circuit with a three-qudit gate is off by {e:.3g}", device=desc, spec=spec)
        ctx.known("multi-placement")
    else:
        ctx.check(e < TOL, f"{level}: a circuit with a three-qudit gate is off by {e:.3g}", device=desc, spec=spec)
    ctx.ev("multi")


KINDS = {
    "pipeline": {"fn": pipeline, "quick": 330, "thorough": 4000},
    "twice": {"fn": twice, "quick": 40, "thorough": 500},
    "again": {"fn": again, "quick": 120, "thorough": 1200},
    "lists": {"fn": lists, "quick": 60, "thorough": 800},
    "multi": {"fn": multi, "quick": 40, "thorough": 400},
}
REQUIRED = {
    "O0": 10, "O1": 10, "O2": 10, "method_O0": 5, "method_O1": 5, "phy_ada": 5, "phy_qr": 5, "log": 5, "remapped": 60,
    "placement_changes": 5, "moved_placements": 15, "entangling": 40, "sequences": 8, "lists": 25, "kept": 8, "#pass": 5, "multi": 8, "multi_first": 4, "native": 200, "driven": 30, "repeated gates": 20, "again": 25, "failed compilations": 4,
}
ASSUMPTIONS = [
    "numpy's dense complex arithmetic",
    "circuits are compared up to a global phase and 3e-3, since the passes drop phases below 1e-4",
    "cases whose search takes more than 25 s are left out",
]
BUDGET = {"quick": 120, "thorough": 700}
