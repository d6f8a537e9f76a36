"""C24: calls that make no sense for the circuit are refused and leave everything as it was."""
from __future__ import annotations

import numpy as np

from lib import gen, ref, sut

PID = "C24"
RULE = (
    "a random circuit and one faulty call on it (lines, levels, parameters, matrices, controls, registers, positions, initial states, noise, "
    "devices), drawn from a list of fault kinds; distinct by register, gate and fault; non-trivial: circuit with gates before the call"
)


def picture(circ):
    """All that can be seen of a circuit."""
    return (
        [id(g) for g in circ.instructions], circ.number_gates, list(circ.dimensions), circ.num_qudits,
        [(r.label, r.size, list(r.dimensions), dict(r.local_sitemap)) for r in circ.quantum_registers],
        [(r.label, r.size) for r in circ.classic_registers], dict(circ.sitemap), dict(circ.inverse_sitemap), circ.num_cl,
        dict(circ.classic_site_map), repr(circ.mappings), [gate_picture(g) for g in circ.instructions],
    )


def gate_picture(g):
    c = g._controls_data  # noqa: SLF001
    return (
        type(g).__name__, repr(g.target_qudits), repr(g.dimensions), g.gate_type.name, bool(g.dagger), bool(g.is_long_range), list(g.reference_lines),
        None if c is None else (list(c.indices), list(c.ctrl_states)), g.to_matrix(2).tobytes(),
    )


def base(ctx, rng, nmin=2):
    ds = gen.dims(rng, nmax=4, dmax=5, size=80, nmin=nmin)
    sp = gen.spec(rng, ds, [*gen.SINGLE, "csum", "cx", "ls", "ms", "cu_two"], int(rng.integers(0, 5)))
    return sp, sut.build(sp)


def bad_param(rng, g, d):
    """A faulty parameter for single-qudit gate g of dimension d, or None when the kind does not fit."""
    a, b = gen.ints(rng.permutation(d)[:2])
    ang = float(rng.uniform(0.1, 3))
    tail = {"r": [ang, ang], "rz": [ang], "rh": [], "noisex": [], "noisey": []}.get(g)
    kind = str(rng.choice(["level too high", "level negative", "levels equal", "level no number", "missing", "empty", "none", "angle no number"]))
    if tail is not None:
        out = {
            "level too high": [a, d + int(rng.integers(3)), *tail] if rng.random() < 0.5 else [d + int(rng.integers(3)), a, *tail],
            "level negative": [-1 - int(rng.integers(d)), a, *tail] if rng.random() < 0.5 else [a, -1, *tail],
            "levels equal": [a, a, *tail],
            "level no number": ["0", b, *tail] if rng.random() < 0.5 else [a, float(b), *tail],
            "missing": [a, b, *tail][: int(rng.integers(1, 2 + len(tail)))],
            "empty": [],
            "none": None,
            "angle no number": [a, b, *["pi" for _ in tail]] if tail else None,
        }[kind]
        if kind == "angle no number" and not tail:
            kind = "none"
        return kind, out
    if g == "virtrz":
        return kind, {
            "level too high": [d + int(rng.integers(3)), ang], "level negative": [-1, ang], "levels equal": ["0", ang], "level no number": [0.5, ang],
            "missing": [a], "empty": [], "none": None, "angle no number": [a, "pi"],
        }[kind]
    if g == "pm":
        p = gen.ints(rng.permutation(d))
        q = list(p)
        q[0] = q[1]
        return kind, {
            "level too high": [*p[:-1], d], "level negative": [*p[:-1], -1], "levels equal": q, "level no number": [str(x) for x in p],
            "missing": p[:-1], "empty": [], "none": None, "angle no number": [*p, d],
        }[kind]
    if g == "cu_one":
        return kind, {
            "level too high": ref.haar(d + 1, 1), "level negative": np.zeros((d, d + 1)), "levels equal": ref.haar(d * d, 2), "level no number": "matrix",
            "missing": ref.haar(d - 1, 3) if d > 2 else np.ones((1, 1)), "empty": np.zeros((0, 0)), "none": 7, "angle no number": ref.haar(d, 4)[0],
        }[kind]
    raise AssertionError(g)


def attempt(ctx, circ, call, what, **info):
    """Make the faulty call; it must raise, at the latest when the gate's matrix is asked for, and leave the circuit alone."""
    before = picture(circ)
    with ctx.quiet():
        try:
            g = call()
        except Exception:  # noqa: BLE001
            g = None
            ctx.ev("refused_at_once")
        else:
            try:
                if g is None:
                    raise RuntimeError  # noqa: TRY301
                m = np.asarray(g.to_matrix(2))
            except Exception as e:  # noqa: BLE001
                if g is None:
                    ctx.fail(f"a senseless call is accepted: {what}", **info)
                    return
                # refused when the gate is used: nothing may have been added but that gate
                ctx.ev("refused_when_used")
                rest = [x for x in circ.instructions if x is not g]
                ctx.check([id(x) for x in rest] == before[0], "a gate that is refused when used replaced other gates", fault=what, error=str(e)[:60])
                return
            ctx.fail(f"a senseless gate is accepted: {what}", shape=list(m.shape), identity=bool(m.ndim == 2 and m.shape[0] == m.shape[1] and np.allclose(m, np.eye(len(m)))), **info)
            return
    ctx.check(picture(circ) == before, f"a refused call changed the circuit: {what}", **info)
    ctx.seen("faults", what)


def parameters(ctx, rng):
    sp, circ = base(ctx, rng, 1)
    q = int(rng.integers(len(sp["dims"])))
    g = str(rng.choice(["r", "r", "rz", "rh", "virtrz", "noisex", "noisey", "pm", "cu_one"]))
    kind, p = bad_param(rng, g, sp["dims"][q])
    ctx.case({"dims": sp["dims"], "gate": g, "fault": kind, "line": q, "ops": len(sp["ops"]), "n": len(repr(p))}, nontrivial=bool(sp["ops"]))
    attempt(ctx, circ, lambda: getattr(circ, g)(q, p), f"{g}: {kind}", param=repr(p)[:80], dim=sp["dims"][q])


def undefined(ctx, rng):
    """Gates without a definition for the dimension of their line."""
    d = int(rng.choice([4, 6, 8, 9, 10, 12, 14, 15, 21, 25, 27, 33, 35, 49]))
    ds = [int(rng.integers(2, 4)), d] if rng.random() < 0.5 else [d]
    q = ds.index(d)
    sp = gen.spec(rng, ds, ["x", "h", "r", "virtrz"], int(rng.integers(0, 3)))
    circ = sut.build(sp)
    ctx.case({"dims": ds, "gate": "s", "fault": "composite dimension", "ops": len(sp["ops"])}, nontrivial=bool(sp["ops"]))
    attempt(ctx, circ, lambda: circ.s(q), "s: composite dimension", dims=ds)
    ctx.ev("undefined")


def two_parameters(ctx, rng):
    sp, circ = base(ctx, rng)
    ds = sp["dims"]
    a, b = gen.ints(rng.permutation(len(ds))[:2])
    n = ds[a] * ds[b]
    g = str(rng.choice(["cx", "ls", "ms", "cu_two", "cu_multi"]))
    dt = ds[b]
    lo, hi = sorted(gen.ints(rng.permutation(dt)[:2]))
    faults = {
        "cx": {
            "level too high": [lo, dt + int(rng.integers(3)), 0, 0.3], "levels reversed": [hi, lo, 0, 0.3], "levels equal": [lo, lo, 0, 0.3],
            "level negative": [-1, hi, 0, 0.3], "angle too large": [lo, hi, 0, 6.9], "angle negative": [lo, hi, 0, -0.1], "missing": [lo, hi, 0],
            "level no number": [lo, str(hi), 0, 0.3], "angle no number": [lo, hi, 0, "x"], "control no number": [lo, hi, "0", 0.3], "empty": [],
        },
        "ls": {"angle too large": [6.9], "angle negative": [-0.2], "empty": [], "none": None, "angle no number": ["x"]},
        "ms": {"angle too large": [6.9], "angle negative": [-0.2], "empty": [], "none": None, "angle no number": ["x"]},
    }
    m = {
        "too small": ref.haar(n - 1, 1), "too large": ref.haar(n + 1, 1), "one qudit's": ref.haar(ds[a], 2), "not square": np.zeros((n, n + 1)),
        "a vector": np.ones(n), "no matrix": "matrix", "twice the size": np.eye(2 * n),
    }
    faults["cu_two"] = faults["cu_multi"] = m
    kind = str(rng.choice(list(faults[g])))
    p = faults[g][kind]
    ctx.case({"dims": ds, "gate": g, "fault": kind, "lines": [a, b], "ops": len(sp["ops"])}, nontrivial=bool(sp["ops"]))
    attempt(ctx, circ, lambda: getattr(circ, g)([a, b], p), f"{g}: {kind}", param=repr(p)[:80], dims=[ds[a], ds[b]])


def lines(ctx, rng):
    sp, circ = base(ctx, rng)
    ds = sp["dims"]
    n = len(ds)
    a, b = gen.ints(rng.permutation(n)[:2])
    g = str(rng.choice(["x", "z", "h", "s", "r", "rz", "rh", "virtrz", "pm", "csum", "cx", "ls", "ms", "cu_two", "cu_multi", "randu"]))
    high = n + int(rng.integers(3))
    low = -1 - int(rng.integers(n))
    args = {
        "r": [[0, 1, 0.2, 0.3]], "rz": [[0, 1, 0.2]], "rh": [[0, 1]], "virtrz": [[0, 0.3]], "pm": [list(range(ds[a]))],
        "cx": [[0, 1, 0, 0.3]], "ls": [[0.4]], "ms": [[0.4]], "cu_two": [np.eye(ds[a] * ds[b])], "cu_multi": [np.eye(ds[a] * ds[b])],
    }.get(g, [])
    if g in sut.ref_single:
        kind = str(rng.choice(["too high", "negative", "text", "none", "list of two", "fraction"]))
        t = {"too high": high, "negative": low, "text": "0", "none": None, "list of two": [a, b], "fraction": a + 0.5}[kind]
    else:
        kind = str(rng.choice(["too high", "negative", "repeated", "text", "none", "number", "empty", "one line", "three lines"]))
        if kind == "three lines" and (n < 3 or g in ("cu_multi", "randu")):
            kind = "repeated"
        if kind == "one line" and g in ("randu",):
            kind = "repeated"
        c = next((x for x in range(n) if x not in (a, b)), a)
        t = {
            "too high": [a, high] if rng.random() < 0.5 else [high, a], "negative": [a, low] if rng.random() < 0.5 else [low, a], "repeated": [a, a],
            "text": ["0", "1"], "none": None, "number": a, "empty": [], "one line": [a], "three lines": [a, b, c],
        }[kind]
    ctx.case({"dims": ds, "gate": g, "fault": kind, "target": repr(t), "ops": len(sp["ops"])}, nontrivial=bool(sp["ops"]))
    attempt(ctx, circ, lambda: getattr(circ, g)(t, *args), f"{g} on {kind}", target=repr(t), dims=ds)


def controls(ctx, rng):
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData

    sp, circ = base(ctx, rng)
    ds = sp["dims"]
    n = len(ds)
    t, c = gen.ints(rng.permutation(n)[:2])
    lev = int(rng.integers(ds[c]))
    faults = {
        "control on the target": ([t], [0]), "control and target": ([c, t], [lev, 0]), "line too high": ([n + int(rng.integers(2))], [0]), "line negative": ([c - n], [lev]),
        "repeated line": ([c, c], [lev, lev]), "level too high": ([c], [ds[c] + int(rng.integers(2))]), "level negative": ([c], [-1]),
        "too many levels": ([c], [lev, 0]), "too few levels": ([c, t], [lev]), "no levels": ([c], []), "no lines": ([], [lev]), "line is text": (["0"], [lev]),
        "level is text": ([c], ["0"]),
    }
    kind = str(rng.choice(list(faults)))
    idx, sts = faults[kind]
    late = rng.random() < 0.5
    g = str(rng.choice(["x", "h", "r", "virtrz", "cu_one"]))
    args = {"r": [[0, 1, 0.2, 0.3]], "virtrz": [[0, 0.3]], "cu_one": [ref.haar(ds[t], 3)]}.get(g, [])
    ctx.case({"dims": ds, "gate": g, "fault": kind, "late": bool(late), "lines": [t, c], "ops": len(sp["ops"])}, nontrivial=bool(sp["ops"]))
    if not late:
        attempt(ctx, circ, lambda: getattr(circ, g)(t, *args, ControlData(list(idx), list(sts))), f"controls at once: {kind}", dims=ds, t=t, idx=repr(idx), levels=repr(sts))
        return
    gate = getattr(circ, g)(t, *args)
    if rng.random() < 0.3:
        gate.dag()
    if rng.random() < 0.4:  # it has controls already
        gate.control([c], [lev])
    before = picture(circ)
    with ctx.quiet():
        try:
            gate.control(list(idx), list(sts))
            ok = False
        except Exception:  # noqa: BLE001
            ok = True
    ctx.check(ok, f"senseless controls are accepted: {kind}", dims=ds, t=t, idx=repr(idx), levels=repr(sts))
    if ok:
        ctx.check(picture(circ) == before, f"refused controls changed the gate: {kind}", gate=g)
        ctx.seen("faults", f"controls later: {kind}")
        ctx.ev("refused_controls")


def two_controls(ctx, rng):
    """Gates that take no controls."""
    sp, circ = base(ctx, rng, 3) if rng.random() < 0.8 else base(ctx, rng)
    ds = sp["dims"]
    n = len(ds)
    if n < 3:
        sp = {"dims": [2, 3, 2], "ops": []}
        circ, ds, n = sut.build(sp), sp["dims"], 3
    a, b, c = gen.ints(rng.permutation(n)[:3])
    g = str(rng.choice(["csum", "cx", "ls", "ms", "cu_two", "cu_multi", "randu"]))
    args = {"cx": [[0, 1, 0, 0.3]], "ls": [[0.4]], "ms": [[0.4]], "cu_two": [ref.haar(ds[a] * ds[b], 1)], "cu_multi": [ref.haar(ds[a] * ds[b], 1)]}.get(g, [])
    gate = getattr(circ, g)([a, b], *args)
    ctx.case({"dims": ds, "gate": g, "lines": [a, b, c]})
    before = picture(circ)
    with ctx.quiet():
        try:
            gate.control([c], [0])
            ok = False
        except Exception:  # noqa: BLE001
            ok = True
    ctx.check(ok, f"controls on {g} are accepted", dims=ds)
    ctx.check(not ok or picture(circ) == before, "refused controls changed the gate", gate=g)
    ctx.ev("refused_controls", ok)


def structure(ctx, rng):
    """Registers, positions and states that do not fit."""
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components.classic_register import ClassicRegister
    from mqt.qudits.quantum_circuit.components.quantum_register import QuantumRegister

    sp, circ = base(ctx, rng, 1)
    ds = sp["dims"]
    size = int(np.prod(ds))
    kind = str(rng.choice([
        "register twice", "classic register twice", "register too short", "replace beyond", "replace before", "state too long", "state too short",
        "state zero", "state nan", "state matrix", "line of a register", "site outside", "no levels", "negative size", "negative classic size",
        "no levels at once",
    ]))
    name = circ.quantum_registers[0].label
    psi = ref.rand_state(size, int(rng.integers(1 << 30)))
    if kind == "register twice":
        def call(): circ.append(QuantumRegister(name, 1, [2]))
    elif kind == "classic register twice":
        circ.append_classic(ClassicRegister("c", 2))
        def call(): circ.append_classic(ClassicRegister("c", 3))
    elif kind == "register too short":
        def call(): circ.append(QuantumRegister("new", 3, [2, 3]))
    elif kind in ("no levels", "no levels at once"):
        bad = [int(rng.integers(2, 5)) for _ in range(int(rng.integers(1, 4)))]
        bad[int(rng.integers(len(bad)))] = int(rng.choice([0, 0, -1, -3]))
        if kind == "no levels":
            def call(): circ.append(QuantumRegister("new", len(bad), bad))
        else:
            def call(): QuantumCircuit(len(bad), bad, 0)
    elif kind == "negative size":
        def call(): circ.append(QuantumRegister("new", -int(rng.integers(1, 3)), []))
    elif kind == "negative classic size":
        def call(): circ.append_classic(ClassicRegister("new", -int(rng.integers(1, 3))))
    elif kind in ("replace beyond", "replace before"):
        k = len(circ.instructions)
        other = QuantumCircuit(len(ds), list(ds), 0)
        gs = [other.x(0) for _ in range(int(rng.integers(0, 3)))]
        i = k + int(rng.integers(3)) if kind == "replace beyond" else -k - 1 - int(rng.integers(3))
        def call(): circ.replace_gate(i, gs)
    elif kind.startswith("state"):
        st = {
            "state too long": lambda: ref.rand_state(size * int(rng.integers(2, 4)) if rng.random() < 0.5 else size + 1, 5),
            "state too short": lambda: ref.rand_state(max(1, size - int(rng.integers(1, size))), 5), "state zero": lambda: psi * 0,
            "state nan": lambda: psi * np.nan, "state matrix": lambda: psi.reshape(ds[0], -1) if len(ds) > 1 else psi.reshape(1, -1),
        }[kind]()
        def call(): circ.set_initial_state(st)
    elif kind == "line of a register":
        def call(): return circ.x(circ.quantum_registers[0][circ.quantum_registers[0].size + int(rng.integers(3))])
    else:
        def call(): return circ.x(len(ds))
    ctx.case({"dims": ds, "fault": kind, "ops": len(sp["ops"])}, nontrivial=bool(sp["ops"]))
    before = picture(circ)
    with ctx.quiet():
        try:
            call()
            ok = False
        except Exception:  # noqa: BLE001
            ok = True
    ctx.check(ok, f"accepted: {kind}", dims=ds)
    if ok:
        ctx.check(picture(circ) == before, f"a refused call changed the circuit: {kind}", dims=ds)
        ctx.seen("faults", kind)
        ctx.ev("refused_structure")


def compiling(ctx, rng):
    """Circuits that do not fit the device; the circuit stays, and the device compiles the next one as if nothing had happened."""
    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.simulation import MQTQuditProvider

    name, top, most = [("faketraps2trits", 3, 2), ("faketraps2six", 6, 2), ("faketraps3six", 6, 3)][int(rng.integers(3))]
    how = str(rng.choice(["too many levels", "too many qudits", "unknown pass"]))
    level = str(rng.choice(["compile_O0", "compile_O1", "compile_O2"]))
    if how == "too many levels":
        ds = [top] * int(rng.integers(1, most + 1))
        bad = int(rng.integers(len(ds)))
        ds[bad] = top + 1
    elif how == "too many qudits":
        ds = [2] * (most + 1)
        bad = most
    else:
        ds, bad = [2], 0
    c = QuantumCircuit(len(ds), list(ds), 0)
    for q in range(len(ds)):
        if q != bad and rng.random() < 0.3 and ds[q] == top:
            c.rz(q, [0, 1, 0.4])
    c.h(bad)
    ctx.case({"device": name, "fault": how, "dims": ds, "level": level, "n": len(c.instructions)})
    p = MQTQuditProvider()
    be, fresh = p.get_backend(name), p.get_backend(name)
    before = picture(c)
    with ctx.quiet():
        try:
            if how == "unknown pass":
                QuditCompiler().compile(be, c, ["PhyLocQR"])
            else:
                getattr(QuditCompiler(), level)(be, c)
            ok = False
        except Exception:  # noqa: BLE001
            ok = True
    ctx.check(ok, f"compiled although: {how}", dims=ds, device=name)
    ctx.check(picture(c) == before, "a refused compilation changed the circuit", fault=how)
    if how == "unknown pass":
        for b in (be, fresh):
            ctx.check([g.log_phy_map for g in b.energy_level_graphs] == [g.log_phy_map for g in fresh.energy_level_graphs], "a refused compilation changed the device")
    ctx.ev("refused_compilations", ok)


KINDS = {
    "parameters": {"fn": parameters, "quick": 2700, "thorough": 9000},
    "undefined": {"fn": undefined, "quick": 120, "thorough": 1200},
    "two_parameters": {"fn": two_parameters, "quick": 1500, "thorough": 5000},
    "lines": {"fn": lines, "quick": 2700, "thorough": 9000},
    "controls": {"fn": controls, "quick": 2100, "thorough": 7000},
    "two_controls": {"fn": two_controls, "quick": 120, "thorough": 1200},
    "structure": {"fn": structure, "quick": 1500, "thorough": 5000},
    "compiling": {"fn": compiling, "quick": 180, "thorough": 600},
}
PROBES: list = []
REQUIRED = {"undefined": 40, "refused_at_once": 900, "refused_when_used": 20, "#faults": 150, "refused_controls": 300, "refused_structure": 250, "refused_compilations": 40}
ASSUMPTIONS = [
    "states that are not normalised are prepared normalised (C14), and custom gates may be placed without a matrix, as the code says; neither is counted as a fault",
    "a faulty gate may be refused as late as when its matrix is first asked for",
    "control levels of cx beyond the control's dimension, surplus parameters, and registers with more dimensions than lines are accepted by the repository's own tests and are not counted as faults",
]
NEEDS_BINDINGS = False
