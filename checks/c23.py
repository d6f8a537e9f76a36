"""C23: variational compilation returns circuits that reach the promised fidelity on the lines of the target, or says it failed."""
from __future__ import annotations

import threading

import numpy as np

from lib import gen, harness, ref, sut

PID = "C23"
RULE = (
    "random two-qudit target (product, controlled, one or two layers of the ansatz, custom) on random lines of a larger circuit, compiled "
    "with a random ansatz, number of layers and tolerance, or sparsified; distinct by kind, dimensions, lines, ansatz and layers"
)
FOUND = []


def worker_setup(ctx):
    """Shorter searches (what they find is judged, not how long they look), and a look at what they found."""
    import scipy.optimize as so

    from mqt.qudits.compiler.twodit.variational_twodit_compilation import sparsifier
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import optimizer

    anneal, least = so.dual_annealing, so.minimize

    def short_anneal(f, bounds, **kw):
        return anneal(f, bounds, **{"maxiter": 25, **kw})

    def short_least(f, x0, **kw):
        r = least(f, x0, **{"options": {"maxiter": 3}, **kw})
        FOUND.append(r)
        return r

    so.dual_annealing, so.minimize = short_anneal, short_least
    for m, n, v in ((optimizer, "dual_annealing", short_anneal), (sparsifier, "minimize", short_least)):
        if hasattr(m, n):
            setattr(m, n, v)


def local_pair(rng, ds, a, b):
    return [{"g": "cu_one", "t": [q], "u": int(rng.integers(1 << 30)), "c": None} for q in (a, b)]


def entangler(rng, ansatz, ds, a, b):
    """What the named ansatz repeats, on two lines."""
    lo, hi = min(a, b), max(a, b)
    if ansatz == "MS":
        return {"g": "ms", "t": [lo, hi], "p": [np.pi / 2], "c": None}
    th = np.pi / 2 if 2 in (ds[a], ds[b]) else 2 * np.pi / 3 if 3 in (ds[a], ds[b]) else np.pi
    return {"g": "ls", "t": [lo, hi], "p": [th], "c": None}


def split(ctx, circ, lines, ds):
    """Local gates on the lines, entanglers in between; everything as dense matrices of the two lines."""
    u = np.eye(ds[lines[0]] * ds[lines[1]], dtype=complex)
    ent = []
    for g in circ.instructions:
        ls = sorted(g.reference_lines)
        m = np.asarray(g.to_matrix(0))
        if len(ls) == 1:
            ctx.check(ls[0] in lines and m.shape[0] == ds[ls[0]], "a local gate is not on the lines of the target", lines=lines, got=ls)
            ctx.check(ref.dist(m @ m.conj().T, np.eye(len(m))) < 1e-8, "a local gate is not unitary")
            m = np.kron(m, np.eye(ds[lines[1]])) if ls[0] == lines[0] else np.kron(np.eye(ds[lines[0]]), m)
        else:
            ctx.check(ls == lines, "an entangling gate is not on the lines of the target", lines=lines, got=ls)
            ent.append(m)
        u = m @ u
    return u, ent


def whole(circ, n):
    v = np.eye(n, dtype=complex)
    for g in circ.instructions:
        v = np.asarray(g.to_matrix(2)) @ v
    return v


def fid(a, b):
    return float(abs(np.trace(a.conj().T @ b)) / len(a))


def compiled(ctx, rng):
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.layered_compilation import variational_compile
    from mqt.qudits.quantum_circuit import QuantumCircuit

    n = int(rng.integers(2, 4))
    mixed = rng.random() < 0.25
    ds = [2] * n
    a, b = gen.ints(rng.permutation(n)[:2])
    if mixed:
        ds[a] = 3
    if n == 3:
        ds[({0, 1, 2} - {a, b}).pop()] = int(rng.integers(2, 4))
    ansatz = str(rng.choice(["LS", "LS", "CU", "CU", "MS"]))
    adjacent = abs(a - b) == 1
    kind = str(rng.choice(["product", "ansatz", "custom", "csum", "cx", "controlled"]))
    if ansatz == "MS" or mixed:
        kind = "product"
    if kind == "controlled" and not adjacent:
        kind = "cx"
    layers, tol = int(rng.integers(1, 4)), float(rng.choice([0.02, 0.05, 0.1]))
    if mixed:
        tol = 0.2
    if kind == "custom":
        layers, tol = 3, 0.1
    lo, hi = sorted((a, b))
    prim = None
    if ansatz == "CU":
        prim = {"g": "cx", "t": [a, b], "p": None, "c": None, "dag": bool(rng.random() < 0.5)}
        r = rng.random()
        if r < 0.3:
            prim = {"g": "csum", "t": [a, b], "c": None, "dag": bool(rng.random() < 0.5)}
        elif r < 0.6 and adjacent:
            prim = {"g": "x", "t": [a], "c": [[b], [int(rng.integers(2))]], "dag": False, "late": True}
    circ = QuantumCircuit(n, list(ds), 0)
    if kind == "product":
        u = np.kron(ref.haar(ds[lo], int(rng.integers(1 << 30))), ref.haar(ds[hi], int(rng.integers(1 << 30))))
        target = circ.cu_two([lo, hi], u)
    elif kind in ("ansatz", "custom"):
        # a target the ansatz can reach exactly
        e = prim or entangler(rng, ansatz, ds, a, b)
        ops = []
        for _ in range(1 if kind == "ansatz" else 2):
            ops += [*local_pair(rng, ds, a, b), e]
        ops += local_pair(rng, ds, a, b)
        pos = {lo: 0, hi: 1}
        small = [{**o, "t": [pos[q] for q in o["t"]], "c": [[pos[q] for q in o["c"][0]], o["c"][1]] if o.get("c") else None} for o in ops]
        target = circ.cu_two([lo, hi], ref.unitary({"dims": [ds[lo], ds[hi]], "ops": small}))
    elif kind == "controlled":
        target = sut.add(circ, {"g": "h", "t": [a], "c": [[b], [1]], "late": True})
    else:
        target = sut.add(circ, {"g": kind, "t": [a, b], "p": None, "c": None, "dag": bool(rng.random() < 0.3)})
    pg = None
    if prim:
        pg = sut.add(QuantumCircuit(n, list(ds), 0), prim)
    desc = {"dims": ds, "lines": [a, b], "kind": kind, "ansatz": ansatz, "layers": layers, "tol": tol, "prim": prim}
    ctx.case(desc, [ds, a, b, kind, ansatz, layers, prim])
    want = np.asarray(target.to_matrix(2)).copy()
    before = len(circ.instructions)
    np.random.seed(int(rng.integers(1 << 31)))  # noqa: NPY002
    threads = threading.active_count()
    try:
        new = variational_compile(target, tol, ansatz, layers, pg)
    except RuntimeError as e:
        ctx.ev("reported failure")
        ctx.check(bool(str(e)), "a failure without a word")
        return
    for t in threading.enumerate():
        t.join(0.5) if t is not threading.current_thread() and isinstance(t, threading.Timer) else None
    ctx.check(threading.active_count() <= threads, "the search leaves threads running", threads=[str(t) for t in threading.enumerate()])
    u, ent = split(ctx, new, [lo, hi], ds)
    f = fid(whole(new, int(np.prod(ds))), want)
    ctx.check(1 - f <= tol + 1e-9, f"the compiled circuit has infidelity {1 - f:.4g} for a tolerance of {tol}", **desc)
    ctx.check(1 <= len(ent) <= layers + 1, "more layers than allowed", entanglers=len(ent), **desc)
    w = np.asarray(pg.to_matrix(0)) if pg else ref.embed(
        {**(e := entangler(rng, ansatz, ds, a, b)), "t": [0, 1]}, [ds[lo], ds[hi]], [0, 1])
    for m in ent:
        ctx.check(ref.dist(m, w) < 1e-9, "an entangling gate is not the one of the ansatz", **desc)
    ctx.check(len(circ.instructions) == before and circ.instructions[-1] is target and ref.dist(np.asarray(target.to_matrix(2)), want) == 0,
              "compilation changed the circuit of the target", **desc)
    ctx.check(list(new.dimensions) == ds, "the compiled circuit has other dimensions")
    ctx.ev("compiled")
    ctx.seen("ansatz", ansatz)
    ctx.seen("target", kind)
    ctx.seen("lines", (a, b))
    ctx.mx("infidelity over tolerance", (1 - f) / tol)


def refused(ctx, rng):
    """What cannot be searched is refused, and soon."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.layered_compilation import variational_compile
    from mqt.qudits.quantum_circuit import QuantumCircuit

    circ = QuantumCircuit(3, [2, 2, 2], 0)
    what = str(rng.choice(["no primitive", "unknown ansatz", "layers", "other lines"]))
    ctx.case(what, what)
    t = circ.cx([0, 1])
    kw = {"no primitive": (t, 0.1, "CU", 1), "unknown ansatz": (t, 0.1, "XY", 1), "layers": (t, 0.1, "LS", -1),
          "other lines": (t, 0.1, "CU", 1, circ.cx([1, 2]))}[what]
    out = []

    def go():
        try:
            out.append(variational_compile(*kw))
        except Exception as e:  # noqa: BLE001
            out.append(e)

    th = threading.Thread(target=go, daemon=True)
    with ctx.quiet():
        th.start()
        th.join(60)
    ctx.check(not th.is_alive(), f"{what}: the search hangs")
    ctx.check(isinstance(out[0], Exception), f"{what}: a circuit is returned")
    ctx.ev("refused")


def instance(ctx, rng):
    """What the search evaluates is what the circuit for the same parameters does, for every dimension."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.layered_compilation import variational_compile  # noqa: F401
    from mqt.qudits.compiler.twodit.variational_twodit_compilation import ansatz as _  # noqa: F401
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz import ansatz_gen, instantiate
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz.ansatz_gen_utils import Primitive
    from mqt.qudits.quantum_circuit import QuantumCircuit

    kind = str(rng.choice(["ls", "ls", "ms", "cu"]))
    n = int(rng.integers(2, 4))
    ds = gen.ints(rng.integers(2, 6, n))
    a, b = sorted(gen.ints(rng.permutation(n)[:2]))
    if n == 3 and b - a > 1 and np.prod(ds) > 60:
        ds[1] = 2
    layers = int(rng.integers(0, 3))
    two = [ds[a], ds[b]]
    p = rng.uniform(-np.pi, np.pi, (layers + 1) * (two[0] ** 2 + two[1] ** 2 - 2))
    ctx.case({"dims": ds, "lines": [a, b], "ansatz": kind, "layers": layers}, [ds, a, b, kind, layers])
    search, build = (getattr(m, f, None) for m, f in ((ansatz_gen, f"{kind}_ansatz"), (instantiate, f"create_{kind}_instance")))
    if search is None or build is None:
        raise harness.Skip("other names")
    circ = QuantumCircuit(n, list(ds), 0)
    if kind == "cu":
        g = circ.csum([a, b]) if rng.random() < 0.5 else circ.cu_two([a, b], ref.haar(two[0] * two[1], int(rng.integers(1 << 30))))
        if rng.random() < 0.3:
            g.dag()
        Primitive.set_class_variables(g)
    try:
        want = np.asarray(search(list(p), list(two)))
        out = list(build(circ, list(p), list(two), [a, b]))
    finally:
        Primitive.set_class_variables(None)
    new = QuantumCircuit(n, list(ds), 0)
    new.set_instructions(out)
    u, ent = split(ctx, new, [a, b], ds)
    f = 1 - fid(u, want)
    ctx.check(f < 1e-8, f"the circuit is not what the search saw: infidelity {f:.3g}", dims=ds, lines=[a, b], ansatz=kind, layers=layers)
    ctx.check(len(ent) == layers, "another number of entangling gates", got=len(ent), want=layers)
    w = {"ls": "LS", "ms": "MS"}.get(kind)
    for m in ent:
        e = ref.embed({**entangler(rng, w, ds, a, b), "t": [0, 1]}, two, [0, 1]) if w else np.asarray(g.to_matrix(0))
        ctx.check(ref.dist(m, e) < 1e-9, "an entangling gate is not the one of the ansatz", dims=ds, ansatz=kind)
    ctx.ev("instances")
    ctx.seen("instance", [kind, two])


def unreachable(ctx, rng):
    """Two layers of a weak entangler cannot make a strong one: a failure must be reported."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.layered_compilation import variational_compile
    from mqt.qudits.quantum_circuit import QuantumCircuit

    circ = QuantumCircuit(2, [2, 2], 0)
    t = circ.csum([0, 1])
    weak = QuantumCircuit(2, [2, 2], 0).ls([0, 1], [0.05])
    np.random.seed(int(rng.integers(1 << 31)))  # noqa: NPY002
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import Optimizer

    try:
        variational_compile(t, 0.01, "CU", 1, weak)
    except RuntimeError:
        ctx.ev("reported failure")
        ctx.check(True, "reported")
    else:
        ctx.fail("a circuit is returned although no parameters reach the tolerance")
    ctx.check(Optimizer.timer_var is False, "the time limit of one search stays for the next")
    ctx.case("unreachable", ["unreachable", int(rng.integers(1 << 30))])


def sparse(ctx, rng):
    """The circuit of a sparsified gate is the gate between local rotations, and as sparse as the optimum that was found."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation import sparsifier
    from mqt.qudits.quantum_circuit import QuantumCircuit

    n = int(rng.integers(2, 4))
    ds = [2] * n
    a, b = gen.ints(rng.permutation(n)[:2])
    if n == 3:
        ds[({0, 1, 2} - {a, b}).pop()] = 3
    if rng.random() < 0.2:
        ds[a] = 3
    lo, hi = sorted((a, b))
    circ = QuantumCircuit(n, list(ds), 0)
    kind = str(rng.choice(["custom", "ls", "cx", "csum"]))
    if kind == "custom":
        g = circ.cu_two([lo, hi], ref.haar(ds[lo] * ds[hi], int(rng.integers(1 << 30))))
    else:
        g = sut.add(circ, {"g": kind, "t": [a, b], "p": [1.1] if kind == "ls" else None, "c": None})
    ctx.case({"dims": ds, "lines": [a, b], "kind": kind}, [ds, a, b, kind])
    want = np.asarray(g.to_matrix(0)).copy()
    FOUND.clear()
    new = sparsifier.sparsify(g)
    ctx.check(len(FOUND) == 1, "the sparsifier did not search")
    best = float(FOUND[0].fun)
    u, ent = split(ctx, new, [lo, hi], ds)
    ctx.check(len(ent) == 1 and ref.dist(ent[0], want) < 1e-12, "the gate in the middle is another one")
    m = np.abs(u.real) + np.abs(u.imag)
    f = sparsifier.compute_f(m) * sparsifier.density(m)
    ctx.check(abs(f - best) < 1e-6, "the circuit is not the optimum that was found", got=f, want=best, dims=ds, lines=[a, b])
    ctx.ev("sparsified")


def measures(ctx, rng):
    """Fidelities and sparsity measures against their definitions."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation import sparsifier
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import distance_measures as dm
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.parametrize import generic_sud, params_splitter
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import Optimizer

    d = int(rng.integers(2, 8))
    ctx.case(["measures", d], ["m", d, int(rng.integers(1 << 30))])
    a, b = (ref.haar(d, int(rng.integers(1 << 30))) for _ in range(2))
    ph = np.exp(1j * rng.uniform(0, 6))
    f = dm.fidelity_on_unitares(a, b)
    ctx.check(abs(f - fid(a, b)) < 1e-9 and abs(dm.fidelity_on_unitares(a, ph * a) - 1) < 1e-9, "the fidelity of unitaries is wrong", got=f)
    ctx.check(abs(dm.fidelity_on_operator(a, 3.0 * b) - f) < 1e-9, "the fidelity of operators depends on their scale")
    p, q = rng.random(d), rng.random(d)
    rp = a @ np.diag(p / p.sum()) @ a.conj().T
    rq = b @ np.diag(q / q.sum()) @ b.conj().T
    w = np.trace(rp @ rq).real / np.sqrt(np.trace(rp @ rp).real * np.trace(rq @ rq).real)
    ctx.check(abs(dm.fidelity_on_density_operator(rp, rq) - w) < 1e-9 and abs(dm.fidelity_on_density_operator(rp, rp) - 1) < 1e-9,
              "the fidelity of density operators is wrong")
    ctx.check(abs(dm.naive_state_fidelity(a[0], b[0]) - abs(np.vdot(a[0], b[0])) ** 2) < 1e-9, "the fidelity of states is wrong")
    x = np.zeros((d, d))
    x[int(rng.integers(d)), int(rng.integers(d))] = 2.0
    ctx.check(abs(sparsifier.compute_f(x)) < 1e-9 and abs(sparsifier.compute_f(np.full((d, d), 0.7)) - 1) < 1e-9, "the sparsity measure is wrong")
    d2 = int(rng.integers(2, 6))
    ps = rng.uniform(-3, 3, 2 * (d * d - 1 + d2 * d2 - 1))
    parts = params_splitter(list(ps), [d, d2])
    ctx.check([len(x) for x in parts] == [d * d - 1, d2 * d2 - 1] * 2 and np.allclose(np.concatenate(parts), ps), "parameters are split wrongly")
    u = generic_sud(parts[0], d)
    ctx.check(ref.dist(u @ u.conj().T, np.eye(d)) < 1e-8 and abs(np.linalg.det(u) - 1) < 1e-7, "a parametrised matrix is not in SU(d)", d=d)
    # every parameter has an effect of its own, except at singular points
    if d < 5:
        best = 0
        for _ in range(6):
            at = rng.uniform(0.3, 1.2, d * d - 1)
            cols = []
            for i in range(d * d - 1):
                e = np.eye(d * d - 1)[i] * 1e-5
                t = (generic_sud(at + e, d) - generic_sud(at - e, d)) @ generic_sud(at, d).conj().T / 2e-5
                cols.append(np.concatenate([t.real.ravel(), t.imag.ravel()]))
            best = max(best, int(np.linalg.matrix_rank(np.array(cols), tol=1e-5)))
            if best == d * d - 1:
                break
        ctx.check(best == d * d - 1, "the parameters of generic_sud do not reach all of SU(d)", d=d, rank=best)
        ctx.ev("full rank")
    Optimizer.set_class_variables(np.eye(d * d2), 0.1, d, d2)
    k = int(rng.integers(0, 4))
    bd = Optimizer.return_bounds(k)
    ctx.check(len(bd) == (k + 2) * (d * d + d2 * d2 - 2) and all(lo < hi for lo, hi in bd), "the bounds of the search are wrong", n=len(bd))
    ctx.ev("measures")


KINDS = {
    "compiled": {"fn": compiled, "quick": 120, "thorough": 2500},
    "refused": {"fn": refused, "quick": 12, "thorough": 40},
    "instance": {"fn": instance, "quick": 300, "thorough": 6000},
    "unreachable": {"fn": unreachable, "quick": 3, "thorough": 20},
    "sparse": {"fn": sparse, "quick": 40, "thorough": 600},
    "measures": {"fn": measures, "quick": 200, "thorough": 3000},
}
REQUIRED = {"compiled": 20, "#ansatz": 3, "#target": 4, "#lines": 4, "refused": 6, "sparsified": 20, "measures": 60, "full rank": 10,
            "reported failure": 2, "instances": 80, "#instance": 15}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "scipy's optimisers, cut short; searches that fail and say so are no violation"]
BUDGET = {"quick": 150, "thorough": 700}
