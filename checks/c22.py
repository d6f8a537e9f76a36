"""C22: the tools for looking at results (verifier, small simulators, remapping, plots, density matrices, saved files) tell the truth."""
from __future__ import annotations

import contextlib
import io
import itertools
import re

import numpy as np

from lib import gen, ref, sut

PID = "C22"
RULE = (
    "random circuits, decompositions (right and slightly wrong), level mappings, distributions and density matrices given to the tools that "
    "verify, replay, relabel, plot, trace and save; distinct by dimensions with the structure of the case; non-trivial: more than one outcome"
)


def perm(nodes, mapping):
    p = np.zeros((len(nodes), len(nodes)))
    for a, b in zip(nodes, mapping):
        p[b, a] = 1
    return p


def matrix(op, dims):
    return ref.unitary({"dims": dims, "ops": [op]})


def far(m):
    """How far a unitary is from a multiple of the identity."""
    ph = np.trace(m)
    if abs(ph) < 1e-9:
        return 2.0
    return float(np.abs(m / (ph / abs(ph)) - np.eye(len(m))).max())


def verifier(ctx, rng):
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import UnitaryVerifier
    from mqt.qudits.quantum_circuit import QuantumCircuit

    two = rng.random() < 0.3
    dims = [int(x) for x in rng.integers(2, 4, 2)] if two else [int(rng.integers(2, 7))]
    n = int(np.prod(dims))
    kinds = ["csum", "cx", "ls", "ms", "cu_two"] if two else [k for k in gen.SINGLE if k != "s"]
    ops = []
    while len(ops) < int(rng.integers(1, 9)):
        if two and rng.random() < 0.5:
            o = gen.op(rng, dims, ["r", "rz", "virtrz", "x", "h"], ctrl=1.0)
            o["late"] = False
        else:
            o = gen.op(rng, dims, kinds, ctrl=0)
        ops.append(o)
    mats = [matrix(o, dims) for o in ops]
    s = np.eye(n, dtype=complex)
    for m in mats:
        s = m @ s
    maps = bool(rng.random() < 0.6)
    nodes = list(range(n)) if rng.random() < 0.5 else gen.ints(rng.permutation(n))
    first, last = gen.ints(rng.permutation(n)), gen.ints(rng.permutation(n))
    p0, pf = (perm(nodes, first), perm(nodes, last)) if maps else (np.eye(n), np.eye(n))
    t = p0.T @ s.conj().T @ pf * np.exp(1j * rng.uniform(0, 6))
    wrong = str(rng.choice(["none", "none", "phase", "rotation", "level swap", "dropped", "reordered", "conjugate", "final map", "scaled row"]))
    seq = list(range(len(ops)))
    if wrong == "phase":
        t[:, int(rng.integers(n))] *= np.exp(1j * rng.choice([-1, 1]) * rng.uniform(0.01, 3))
    elif wrong == "rotation":
        a, b = sorted(gen.ints(rng.permutation(n)[:2]))
        t = t @ ref.two_level(n, a, b, ref.r2(float(rng.uniform(0.01, 3)), 0.4))
    elif wrong == "level swap":
        a, b = gen.ints(rng.permutation(n)[:2])
        t[:, [a, b]] = t[:, [b, a]]
    elif wrong == "dropped":
        seq.pop(int(rng.integers(len(seq))))
    elif wrong == "reordered":
        seq.reverse()
    elif wrong == "conjugate":
        t = t.conj()
    elif wrong == "final map":
        last = gen.ints(rng.permutation(n))
        pf = perm(nodes, last) if maps else pf
    elif wrong == "scaled row":
        t[int(rng.integers(n))] *= -1
    m = p0 @ t
    for k in seq:
        m = mats[k] @ m
    dev = far(pf.T @ m)
    ctx.case({"dims": dims, "ops": ops, "wrong": wrong, "maps": [nodes, first, last] if maps else None}, [dims, [o["g"] for o in ops], wrong, maps])
    circ = QuantumCircuit(len(dims), list(dims), 0)
    gates = [sut.add(circ, o) for o in ops]
    tgt = circ.cu_two([0, 1], t) if two else circ.cu_one(0, t)
    before = [g.to_matrix(identities=0).copy() for g in gates]
    v = UnitaryVerifier([gates[k] for k in seq], tgt, dims, *([list(nodes), list(first), list(last)] if maps else []))
    with np.errstate(all="ignore"):
        got = [v.verify(), v.verify()]
    ctx.check(got[0] == got[1], "the verifier changes its mind", got=got)
    ctx.check(all(np.array_equal(a, g.to_matrix(identities=0)) for a, g in zip(before, gates)), "verifying changed a gate")
    if dev < 1e-6:
        ctx.ev("true_decompositions")
        ctx.check(got[0] is True, "a correct decomposition is called wrong", dev=dev)
    elif dev > 1e-3:
        ctx.ev("false_decompositions")
        ctx.seen("faults", wrong)
        ctx.check(got[0] is False, "a wrong decomposition is called correct", dev=dev, wrong=wrong)


def replay(ctx, rng):
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import mini_sim, mini_unitary_sim, phy_sdit_sim

    ds = gen.dims(rng, 3, 5, 60)
    sp = gen.spec(rng, ds, [k for k in gen.ALL if k != "gellmann"], int(rng.integers(1, 9)))
    ctx.case(sp, gen.sig(sp))
    circ = sut.build(sp)
    ctx.check(np.allclose(mini_sim(circ), ref.state(sp), atol=1e-8), "mini_sim does not give the state of the circuit")
    k = int(rng.integers(len(sp["ops"]) + 1))
    ctx.check(np.allclose(mini_unitary_sim(circ, circ.instructions), ref.unitary(sp), atol=1e-8), "mini_unitary_sim does not give the matrix of the circuit")
    ctx.check(np.allclose(mini_unitary_sim(circ, circ.instructions[k:]), ref.unitary({"dims": ds, "ops": sp["ops"][k:]}), atol=1e-8),
              "mini_unitary_sim does not give the matrix of a part of the circuit", start=k)
    ctx.ev("replays")
    d = int(rng.integers(2, 7))
    one = gen.spec(rng, [d], gen.SINGLE, int(rng.integers(1, 6)))
    circ = sut.build(one)
    mp = gen.ints(rng.permutation(d))
    circ.set_mapping([mp])
    e = np.zeros(d, dtype=complex)
    e[mp[0]] = 1
    ctx.check(np.allclose(phy_sdit_sim(circ), ref.state(one, e), atol=1e-8), "phy_sdit_sim does not start from the level that carries |0>", mapping=mp, spec=one)


def mapped(rng, ds):
    return [gen.ints(rng.permutation(d)) for d in ds] if rng.random() < 0.75 else None


def relabel(x, ds, maps):
    if maps is None:
        return np.array(x)
    out = np.zeros(len(x), dtype=np.asarray(x).dtype)
    for j, st in enumerate(np.ndindex(*ds)):
        out[j] = x[np.ravel_multi_index([m[s] for m, s in zip(maps, st)], ds)]
    return out


def bars():
    import matplotlib.pyplot as plt

    ax = plt.gca()
    heights = [float(p.get_height()) for p in ax.patches]
    plt.gcf().canvas.draw()
    labels = [t.get_text() for t in ax.get_xticklabels()]
    plt.close("all")
    return labels, heights


def plots(ctx, rng):
    sut.quiet_import()
    import matplotlib.pyplot as plt
    from mqt.qudits.visualisation import plot_counts, plot_state
    from mqt.qudits.visualisation.plot_information import HistogramWithErrors, remap_result, state_labels

    ds = [int(x) for x in rng.integers(2, 14, 1)] if rng.random() < 0.2 else gen.dims(rng, 3, 5, 40)
    if rng.random() < 0.1:
        ds = [2, 12] if rng.random() < 0.5 else [11, 3]
    n = int(np.prod(ds))
    maps = mapped(rng, ds)
    ctx.case({"dims": ds, "maps": maps}, nontrivial=n > 1)
    circ = sut.build({"dims": ds, "ops": []})
    if maps:
        circ.set_mapping([list(m) for m in maps])
    labels = state_labels(circ)
    ctx.check(len(set(labels)) == n == len(labels), "two states have the same label", labels=labels)
    sep = "," if max(ds) > 10 else ""
    ctx.check(labels == [sep.join(map(str, st)) for st in np.ndindex(*ds)], "a state has the wrong label", labels=labels)

    psi = ref.rand_state(n, int(rng.integers(1 << 30)))
    psi[rng.random(n) < 0.3] = 0
    keep = psi.copy()
    got = remap_result(psi, circ)
    ctx.check(np.allclose(got, relabel(psi, ds, maps), atol=1e-12), "a state is relabelled wrongly", maps=maps)
    got[:] = 0
    ctx.check(np.array_equal(psi, keep), "relabelling spoils the result it was given")
    ctx.ev("relabelled_states")

    shots = int(rng.integers(1, 300)) if rng.random() < 0.8 else int(rng.integers(1000, 30000))
    meas = gen.ints(rng.choice(n, size=shots, p=rng.dirichlet(np.full(n, 0.4))))
    cnt = [meas.count(i) for i in range(n)]
    ctx.check(np.array_equal(remap_result(list(cnt), circ), relabel(cnt, ds, maps)), "counts are relabelled wrongly", maps=maps)

    if rng.random() < (0.5 if ctx.thorough else 0.35):
        plt.close("all")
        c = plot_counts(list(meas), circ)
        lab, h = bars()
        want = relabel(cnt, ds, maps)
        ctx.check(np.array_equal(c, want), "plot_counts returns other counts than were measured", got=c, want=want, maps=maps)
        ctx.check(sum(c) == shots, "plot_counts loses outcomes", got=sum(c), want=shots)
        ctx.check(lab == labels and np.allclose(h, want), "the plot shows other counts than were measured", labels=lab, heights=h, want=want)
        shape = [(n,), (1, n), tuple(ds)][int(rng.integers(2))]
        c = plot_state(psi.reshape(shape), circ)
        lab, h = bars()
        want = relabel(np.abs(psi), ds, maps)
        ctx.check(np.allclose(c, want, atol=1e-12), "plot_state returns other amplitudes than the state has", got=c, want=want, maps=maps)
        ctx.check(lab == labels and np.allclose(h, want), "the plot shows other amplitudes than the state has", labels=lab, heights=h, want=want)
        f = ctx.scratch / "plot.png"
        HistogramWithErrors(labels, want, n * [0], title="t").save_to_png(str(f))
        ctx.check(f.read_bytes()[:8] == b"\x89PNG\r\n\x1a\n", "save_to_png wrote no picture")
        f.unlink()
        ctx.check(not plt.get_fignums(), "save_to_png leaves a figure behind")
        ctx.ev("plots")


def traces(ctx, rng):
    from mqt.qudits.visualisation import get_density_matrix_from_counts, partial_trace

    ds = gen.dims(rng, 4, 5, 72)
    n = int(np.prod(ds))
    keep = sorted(gen.ints(rng.permutation(len(ds))[: int(rng.integers(1, len(ds) + 1))]))
    k = int(rng.integers(1, 4))
    vs = [ref.rand_state(n, int(rng.integers(1 << 30))) for _ in range(k)]
    w = rng.dirichlet(np.ones(k))
    rho = sum(p * np.outer(v, v.conj()) for p, v in zip(w, vs))
    ctx.case({"dims": ds, "keep": keep, "rank": k})
    rest = [q for q in range(len(ds)) if q not in keep]
    dk = [ds[q] for q in keep]
    want = np.zeros((int(np.prod(dk)),) * 2, dtype=complex)
    for (i, a), (j, b) in itertools.product(enumerate(np.ndindex(*dk)), repeat=2):
        for c in np.ndindex(*[ds[q] for q in rest]):
            x, y = [0] * len(ds), [0] * len(ds)
            for q, va, vb in zip(keep, a, b):
                x[q], y[q] = va, vb
            for q, vc in zip(rest, c):
                x[q] = y[q] = vc
            want[i, j] += rho[np.ravel_multi_index(x, ds), np.ravel_multi_index(y, ds)]
    held = rho.copy()
    got = partial_trace(rho, list(keep), list(ds), bool(rng.integers(2)))
    ctx.check(got.shape == want.shape and np.allclose(got, want, atol=1e-10), "a partial trace is wrong", keep=keep)
    ctx.check(np.array_equal(rho, held), "the partial trace spoils the matrix it was given")
    ctx.ev("partial_traces")
    if len(keep) < len(ds):
        ctx.ev("proper_traces")

    shots = int(rng.integers(1, 400)) if rng.random() < 0.8 else int(rng.integers(1000, 30000))
    meas = gen.ints(rng.choice(n, size=shots, p=rng.dirichlet(np.full(n, 0.3))))
    circ = sut.build({"dims": ds, "ops": []})
    m = get_density_matrix_from_counts(list(meas) if rng.random() < 0.6 else np.array(meas), circ)
    ctx.check(m.shape == (n, n) and np.allclose(m, np.diag([meas.count(i) / shots for i in range(n)]), atol=1e-12),
              "the density matrix is not the distribution measured")
    ctx.ev("density_matrices")


def embed(ctx, rng):
    from mqt.qudits.compiler.compilation_minitools import local_compilation_minitools as lm
    from mqt.qudits.compiler.compilation_minitools import numerical_ansatz_utils as nu
    from mqt.qudits.quantum_circuit.components.extensions import matrix_factory as mf

    ds = gen.dims(rng, 4, 5, 60)
    q = int(rng.integers(len(ds)))
    n = int(np.prod(ds))
    m = ref.haar(ds[q], int(rng.integers(1 << 30)))
    ctx.case({"dims": ds, "line": q})
    held = m.copy()

    def on(line, mat):
        out = np.zeros((n, n), dtype=complex)
        for i, a in enumerate(np.ndindex(*ds)):
            for lev in range(ds[line]):
                b = list(a)
                b[line] = lev
                out[i, np.ravel_multi_index(b, ds)] += mat[a[line], lev]
        return out

    ctx.check(np.allclose(nu.gate_expand_to_circuit(m, len(ds), q, list(ds)), on(q, m)), "a matrix is put on the wrong line")
    other = int(rng.integers(1, 6))
    ctx.check(np.allclose(nu.on1(m, other), np.kron(np.eye(other), m)) and np.allclose(nu.on0(m, other), np.kron(m, np.eye(other))),
              "a matrix is put on the wrong qudit of a pair")
    same = [i for i in range(len(ds)) if ds[i] == ds[q]]
    some = sorted(gen.ints(rng.permutation(same)[: int(rng.integers(1, len(same) + 1))]))
    ctx.check(np.allclose(nu.apply_gate_to_tlines(m, len(ds), some, list(ds)), sum(on(i, m) for i in some)), "a generator is put on the wrong lines", lines=some)
    ctx.check(np.allclose(nu.apply_gate_to_tlines(m, len(ds), q, list(ds)), on(q, m)), "a generator is put on the wrong line")
    if len(same) == len(ds):
        ctx.check(np.allclose(nu.apply_gate_to_tlines(m, len(ds), None, list(ds)), sum(on(i, m) for i in same)), "a generator is not put on all lines")
        ctx.ev("generators_on_all_lines")
    for bad in ((0, 0), (len(ds), len(ds)), (len(ds), len(ds) + 2)):
        try:
            nu.gate_expand_to_circuit(m, bad[0], bad[1], list(ds))
            ctx.fail("a line that does not exist is accepted", size=bad[0], line=bad[1])
        except ValueError:
            ctx.ev("refused_lines")
    st = [int(rng.integers(d)) for d in ds]
    e = np.zeros(n)
    e[np.ravel_multi_index(st, ds)] = 1
    ctx.check(np.array_equal(mf.from_dirac_to_basis(list(st), list(ds)), e), "a basis state becomes the wrong vector", state=st)
    k, d = int(rng.integers(0, 60)), int(rng.integers(2, 8))
    ctx.check(mf.calculate_q0_q1(k, d) == divmod(k, d), "an index is split wrongly", index=k, dim=d)
    size = ds[q] + int(rng.integers(0, 4))
    big = ref.haar(size, 5)
    want = big.copy()
    x, y = (int(rng.integers(size - ds[q] + 1)) for _ in range(2))
    want[x : x + ds[q], y : y + ds[q]] = m
    ctx.check(np.array_equal(mf.insert_at(big.copy(), (x, y), m), want), "a block is put in the wrong place", at=[x, y])
    ctx.check(np.array_equal(m, held), "a matrix given to a helper is spoilt")
    ctx.ev("embeddings")

    a = gen.angle(rng, 60)
    for f, period in ((lm.new_mod, 2), (lm.pi_mod, 2), (lm.regulate_theta, 4)):
        b = f(a)
        turn = (b - a) / (period * np.pi)
        ctx.check(abs(turn - round(turn)) < 1e-9, "an angle is changed by other than full turns", f=f.__name__, angle=a, got=b)
        if f is lm.pi_mod:
            ctx.check(abs(b) <= np.pi + 1e-9, "an angle stays outside [-pi, pi]", angle=a, got=b)
    ctx.check(abs(lm.new_mod(a)) <= 2 * np.pi and lm.new_mod(a) * a >= 0, "an angle is not reduced", angle=a)
    ctx.check(lm.theta_cost(a) >= 0 and lm.phi_cost(a) >= 0, "a cost is negative", angle=a)


def drawing(ctx, rng):
    from mqt.qudits.visualisation import draw_qudit_local

    ds = gen.dims(rng, 3, 5, 60)
    sp = {"dims": ds, "ops": []}
    for _ in range(int(rng.integers(0, 8))):
        o = gen.op(rng, ds, [*["r", "virtrz", "cu_one", "x", "h"] * 2, *(["csum", "ls"] if len(ds) > 1 else [])], ctrl=0.0, dag=0)
        if o["g"] == "r":
            a, b = sorted(o["p"][:2])
            o["p"] = [a, b, float(rng.uniform(0.1, 3)), float(rng.uniform(0.1, 3))]
        if o["g"] == "virtrz":
            o["p"][1] = float(rng.uniform(0.1, 3))
        sp["ops"].append(o)
    ctx.case(sp, gen.sig(sp), bool(sp["ops"]))
    circ = sut.build(sp)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        draw_qudit_local(circ)
    lines = out.getvalue().strip("\n").split("\n")
    ctx.check(len(lines) == len(ds), "the drawing has other lines than the circuit", lines=lines)
    for q, line in enumerate(lines):
        items = re.findall(r"--(\[[^\]]*\]|MG|G)--", line)
        want = []
        for o in sp["ops"]:
            if o["t"] != [q]:
                want.append("MG")
            elif o["g"] == "r":
                want.append((f"R{o['p'][0]}{o['p'][1]}", o["p"][2], o["p"][3]))
            elif o["g"] == "virtrz":
                want.append((f"VRz{o['p'][0]}", o["p"][1]))
            else:
                want.append("[CuOne]" if o["g"] == "cu_one" else "G")
        same = len(items) == len(want)
        for i, w in zip(items, want):
            m = re.fullmatch(r"\[(\w+)\(([-.\d]+)(?:,([-.\d]+))?\)\]", i)
            if isinstance(w, str) or not m:
                same &= i == w
            else:  # angles count up to full turns
                same &= m[1] == w[0] and all(abs((float(a) - b + np.pi) % (2 * np.pi) - np.pi) < 0.011 for a, b in zip(m.groups()[1:], w[1:]))
        ctx.check(same, "a line of the drawing shows other gates than the circuit has", line=line, want=want)
    ctx.ev("drawings")


def saved(ctx, rng):
    import h5py
    from mqt.qudits.simulation.save_info import save_full_states, save_shots

    n, k = int(rng.integers(1, 40)), int(rng.integers(1, 12))
    if rng.random() < 0.1:
        n, k = int(rng.integers(1, 9)), int(rng.integers(1000, 3000))
    vs = [ref.rand_state(n, int(rng.integers(1 << 30))) for _ in range(k)]
    shots = gen.ints(rng.integers(0, n, int(rng.integers(1, 80 if k < 100 else 9000))))
    ctx.case({"size": n, "states": k, "shots": len(shots)})
    where = str(ctx.scratch) if rng.random() < 0.5 else ctx.scratch
    for again in range(2):
        if again and rng.random() < 0.5:
            vs, shots = vs[: k // 2 + 1], shots[: len(shots) // 2 + 1]
        with ctx.quiet():
            save_full_states([v.copy() for v in vs], where, "states.h5")
            save_shots(list(shots), where, "shots.h5")
        with h5py.File(ctx.scratch / "states.h5") as f:
            t = f["vectors"][:]
        with h5py.File(ctx.scratch / "shots.h5") as f:
            u = f["shots"][:]
        ctx.check(np.array_equal(t["vector_data"], np.array(vs)), "the states in the file are not those saved", again=again)
        ctx.check(len(set(t["name"].tolist())) == len(vs), "two saved states have one name")
        ctx.check(u["shot"].tolist() == shots and u["nr"].tolist() == list(range(len(shots))), "the outcomes in the file are not those saved", again=again)
    for f in ("states.h5", "shots.h5"):
        (ctx.scratch / f).unlink()
    ctx.ev("files_read_back", 4)


KINDS = {
    "verifier": {"fn": verifier, "quick": 700, "thorough": 9000},
    "replay": {"fn": replay, "quick": 60, "thorough": 900},
    "plots": {"fn": plots, "quick": 240, "thorough": 2500},
    "traces": {"fn": traces, "quick": 240, "thorough": 2000},
    "embed": {"fn": embed, "quick": 200, "thorough": 3000},
    "drawing": {"fn": drawing, "quick": 80, "thorough": 1000},
    "saved": {"fn": saved, "quick": 25, "thorough": 300},
}
PROBES: list = []
REQUIRED = {
    "true_decompositions": 60, "false_decompositions": 150, "#faults": 6, "replays": 20, "relabelled_states": 80, "plots": 20,
    "proper_traces": 15, "density_matrices": 40, "embeddings": 60, "generators_on_all_lines": 5, "drawings": 20, "files_read_back": 20,
}
ASSUMPTIONS = [
    "mappings[q][logical level] is the physical level, as the compiler passes write it",
    "get_density_matrix_from_counts and plot_counts take one outcome index per shot, as the simulators return them",
]
NEEDS_BINDINGS = False
