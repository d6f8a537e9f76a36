"""C14: state preparation circuits prepare the state they were asked for."""
from __future__ import annotations

import numpy as np

from lib import device, gen, ref, sut

PID = "C14"
RULE = (
    "random target state (dense, sparse, structured with equal and empty branches, products, stabiliser-like, tiny amplitudes, named "
    "families) on 1..5 qudits of mixed dimensions, exact or approximated; distinct by dimensions, kind and pattern of zeros; each "
    "case compares all amplitudes"
)
STYLES = ["dense", "sparse", "signs", "phases", "product", "tails", "shared", "basis", "real", "ghz", "qudit-w-state", "embedded-w-state"]


def target(rng, dims, style):
    n = int(np.prod(dims))
    v = rng.normal(size=n) + 1j * rng.normal(size=n)
    if style == "sparse":
        v = v * (rng.random(n) < rng.choice([0.15, 0.5, 0.8]))
    elif style == "signs":
        v = rng.integers(-1, 2, n).astype(complex)
    elif style == "phases":
        v = np.where(rng.random(n) < 0.4, 0, np.exp(1j * rng.integers(0, 4, n) * np.pi / 2))
    elif style == "product":
        v = np.ones(1, dtype=complex)
        for d in dims:
            w = rng.normal(size=d) + 1j * rng.normal(size=d)
            v = np.kron(v, w * (rng.random(d) < 0.7))
    elif style == "tails":
        v = np.where(rng.random(n) < 0.4, v, v * 10.0 ** -rng.integers(1, 5, n))
    elif style == "shared":
        # few distinct subtrees, some of them empty, in any order
        def tree(k):
            if k == len(dims):
                return np.array([rng.normal() + 1j * rng.normal()])
            subs = [tree(k + 1) for _ in range(int(rng.integers(1, 3)))]
            subs.append(np.zeros_like(subs[0]))
            return np.concatenate([subs[int(rng.integers(len(subs)))] * (rng.choice([1, 1, -1, 1j]) if rng.random() < 0.3 else 1) for _ in range(dims[k])])

        v = tree(0)
    elif style == "basis":
        v = np.zeros(n, dtype=complex)
        v[int(rng.integers(n))] = np.exp(1j * rng.uniform(0, 6.28))
    elif style == "real":
        v = rng.normal(size=n)
    norm = np.linalg.norm(v)
    return None if norm < 1e-6 else v / norm


def named(dims, style):
    """The named families, written down from their definition."""
    pats = []
    if style == "ghz":
        pats = [[i] * len(dims) for i in range(min(dims))]
    elif style == "qudit-w-state":
        pats = [[i if k == j else 0 for k in range(len(dims))] for j in range(len(dims)) for i in range(1, dims[j])]
    else:
        pats = [[1 if k == j else 0 for k in range(len(dims))] for j in range(len(dims))]
    v = np.zeros(int(np.prod(dims)), dtype=complex)
    for p in pats:
        v[np.ravel_multi_index(p, dims)] = 1
    return v / np.linalg.norm(v)


def get_target(ctx, rng, dims):
    from mqt.qudits.compiler.state_compilation.retrieve_state import generate_uniform_state

    style = str(rng.choice(STYLES))
    if style in STYLES[-3:]:
        v = named(dims, style)
        got = np.asarray(generate_uniform_state(list(dims), style))
        ctx.check(ref.dist(got, v) < 1e-9, f"the generated {style} is another state", dims=dims)
        ctx.ev("named")
    else:
        v = target(rng, dims, style)
        if v is None:
            v, style = named(dims, "ghz"), "ghz"
    return v, style


def prepare_one(ctx, rng):
    from mqt.qudits.compiler.state_compilation.state_preparation import StatePrep
    from mqt.qudits.quantum_circuit import QuantumCircuit

    dims = gen.dims(rng, 5, 5, 64)
    v, style = get_target(ctx, rng, dims)
    approx = bool(rng.random() < 0.3)
    ctx.case({"dims": dims, "style": style, "approx": approx, "state": np.round(v, 6)}, [dims, style, approx, (np.abs(v) > 1e-9).astype(int).tolist()])
    circ = QuantumCircuit(len(dims), list(dims), 0)
    keep = v.copy()
    new = StatePrep(circ, v, approx).compile_state()
    ctx.check(ref.dist(v, keep) == 0 and not circ.instructions, "preparing a state changes what it is given")
    s = np.asarray(new.simulate()).ravel()
    m = device.product(new.instructions, dims)[:, 0]
    ctx.check(ref.dist(s, m) < 1e-8, "simulating the preparation differs from multiplying its gates", dims=dims)
    ctx.check(abs(np.linalg.norm(s) - 1) < 1e-8, "the prepared state is not normalised")
    if approx:
        f = abs(np.vdot(s, v)) ** 2
        ctx.check(f > 0.99 - 1e-6, f"the approximated preparation has fidelity {f:.5f}", dims=dims, style=style)
        ctx.ev("approximated")
        ctx.mx("infidelity", 1 - f)
        if f < 1 - 1e-7:
            ctx.ev("really_approximated")
    else:
        e = ref.dist(s, v)
        # rotations by less than 1e-5 are left out
        ctx.check(e < 2e-5 * max(1, len(v)), f"the prepared state is off by {e:.3g}", dims=dims, style=style, state=np.round(v, 5))
        ctx.mx("error", e)
        ctx.ev("exact")
    ctx.seen("style", style)
    ctx.seen("dims", dims)


def initial(ctx, rng):
    """set_initial_state: the gates of the circuit then act on that state."""
    dims = gen.dims(rng, 4, 4, 36)
    v, style = get_target(ctx, rng, dims)
    spec = gen.spec(rng, dims, gen.ALL if len(dims) > 1 else gen.SINGLE, int(rng.integers(0, 4)))
    later = gen.spec(rng, dims, gen.ALL if len(dims) > 1 else gen.SINGLE, int(rng.integers(0, 3)))
    ctx.case({"spec": spec, "later": later, "style": style}, [gen.sig(spec), gen.sig(later), style])
    circ = sut.build(spec)
    r = circ.set_initial_state(v)
    ctx.check(r is circ, "set_initial_state returns another circuit")
    for o in later["ops"]:
        sut.add(circ, o)
    ctx.check(circ.number_gates == len(circ.instructions), "the circuit counts its gates wrongly", got=circ.number_gates, want=len(circ.instructions))
    s = np.asarray(circ.simulate()).ravel()
    w = v.astype(complex)
    for o in spec["ops"] + later["ops"]:
        w = ref.apply(o, dims, w)
    e = ref.dist(s, w)
    ctx.check(e < 2e-5 * max(1, len(v)), f"the circuit started in a given state is off by {e:.3g}", spec=spec, later=later, style=style)
    ctx.ev("initial")
    if spec["ops"]:
        ctx.ev("initial_before_gates")


def unnormalised(ctx, rng):
    """Amplitudes that are not normalised prepare the normalised state; real and integer data are fine."""
    from mqt.qudits.compiler.state_compilation.state_preparation import StatePrep
    from mqt.qudits.quantum_circuit import QuantumCircuit

    dims = gen.dims(rng, 3, 4, 24)
    n = int(np.prod(dims))
    v = rng.integers(-3, 4, n)
    if not v.any():
        v[0] = 1
    form = str(rng.choice(["complex", "float", "list"]))
    data = v.astype(complex) if form == "complex" else v.astype(float) if form == "float" else [complex(x) for x in v]
    ctx.case({"dims": dims, "v": v, "form": form}, [dims, (v != 0).astype(int).tolist(), form])
    new = StatePrep(QuantumCircuit(len(dims), list(dims), 0), data).compile_state()
    s = np.asarray(new.simulate()).ravel()
    e = ref.dist(s, v / np.linalg.norm(v))
    ctx.check(e < 2e-5 * n, f"the state prepared from plain numbers is off by {e:.3g}", dims=dims, v=v, form=form)
    ctx.ev("unnormalised")


def helpers(ctx, rng):
    """The helpers that write down states: random ones, uniform ones over families, and the test of the norm."""
    from mqt.qudits.compiler.state_compilation import retrieve_state as rs

    dims = gen.dims(rng, 4, 5, 120)
    n = int(np.prod(dims))
    v = np.asarray(rs.generate_random_quantum_state(list(dims)))
    w = np.asarray(rs.generate_random_quantum_state(list(dims)))
    ctx.case({"dims": dims, "u": int(rng.integers(1 << 30))}, dims)
    ctx.check(v.shape == (n,) and abs(np.linalg.norm(v) - 1) < 1e-9, "a random state is no state", dims=dims, shape=v.shape)
    ctx.check(n == 1 or ref.dist(v, w) > 1e-9, "two random states are the same", dims=dims)
    f = (1 + 10.0 ** float(rng.uniform(-3, 0.5))) ** int(rng.choice([-1, 1]))
    ctx.check(rs.verify_normalized_state(v) is True and rs.verify_normalized_state(list(v)) is True, "a normalised state is refused", dims=dims)
    ctx.check(rs.verify_normalized_state(f * v) is False, "a state that is not normalised passes for one", factor=f)
    style = str(rng.choice(["ghz", "qudit-w-state", "embedded-w-state"]))
    if len(dims) > 1:
        got = np.asarray(rs.generate_uniform_state(list(dims), style))
        ctx.check(ref.dist(got, named(dims, style)) < 1e-12, f"the {style} is another state", dims=dims)
        for bad in ("w", "GHZ", ""):
            try:
                rs.generate_uniform_state(list(dims), bad)
                ctx.fail("an unknown family of states is accepted", family=bad)
            except ValueError:
                pass
    states = [list(map(int, x)) for x in rs.generate_all_combinations(list(dims))]
    ctx.check(states == [list(map(int, x)) for x in np.ndindex(*dims)], "the basis states are listed wrongly", dims=dims)
    ctx.ev("helpers")


def empty_first(ctx):
    """The first branch is empty, the others are equal."""
    from mqt.qudits.compiler.state_compilation.state_preparation import StatePrep
    from mqt.qudits.quantum_circuit import QuantumCircuit

    v = np.array([0, 0, 1, 2, 1, 2], complex) / np.sqrt(10)
    ctx.case({"dims": [3, 2], "v": v})
    s = np.asarray(StatePrep(QuantumCircuit(2, [3, 2], 0), v).compile_state().simulate()).ravel()
    ctx.check(ref.dist(s, v) < 1e-4, "the state with an empty first branch is wrong")


PROBES = [empty_first]
KINDS = {
    "prepare": {"fn": prepare_one, "quick": 1500, "thorough": 20000},
    "initial": {"fn": initial, "quick": 300, "thorough": 5000},
    "helpers": {"fn": helpers, "quick": 150, "thorough": 2000},
    "unnormalised": {"fn": unnormalised, "quick": 150, "thorough": 2000},
}
REQUIRED = {"exact": 120, "approximated": 50, "really_approximated": 10, "named": 50, "initial": 60, "initial_before_gates": 40, "unnormalised": 30, "helpers": 60, "#style": 12}
ASSUMPTIONS = [
    "numpy's dense complex arithmetic",
    "rotations by less than 1e-5 are left out by the synthesis; amplitudes are compared within 2e-5 times the dimension",
    "the approximation may cut at most one percent of the probability",
]
BUDGET = {"quick": 90, "thorough": 650}
