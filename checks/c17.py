"""C17: noisy runs return independent shots with the distribution of the noise channel, and save exactly what they return."""
from __future__ import annotations

import itertools
from pathlib import Path

import numpy as np
from scipy import stats

from checks import c16
from lib import gen, ref, sut

PID = "C17"
NEEDS_BINDINGS = True
WORKERS = 4
RULE = (
    "random circuit, noise model, backend, number of shots and way of saving, run through Backend.run; distinct by all of these; each case "
    "tests the outcomes against the density matrix computed from the channel, their independence, and the files written"
)
PVAL = 1e-9


def rho_of(spec, entries, backend):
    """Density matrix after the circuit under the channel of the noise model."""
    ds = spec["dims"]
    n = int(np.prod(ds))
    rho = np.zeros((n, n), dtype=complex)
    rho[0, 0] = 1

    def conj(o, r):
        u = ref.apply(o, ds, np.eye(n, dtype=complex))
        return u @ r @ u.conj().T

    for o in spec["ops"]:
        rho = conj(o, rho)
        for e in entries:
            if c16.tag(o) not in e["gates"]:
                continue
            qs = c16.affected(o, e["mode"], len(ds))
            if backend == "misim":
                for p, isx in ((e["depo"], True), (e["deph"], False)):
                    r = rho
                    for q in qs:
                        r = conj(c16.mi_errors(o, ds, isx, q), r)
                    rho = (1 - p) * rho + p * r
            elif e["kind"] == "math":
                for q in qs:
                    d = ds[q]
                    out = (1 - e["depo"] * (d * d - 1) / d / d) * rho
                    for a, b in itertools.product(range(d), repeat=2):
                        if (a, b) != (0, 0):
                            r = rho
                            for g, k in (("x", a), ("z", b)):
                                for _ in range(k):
                                    r = conj({"g": g, "t": [q], "c": None}, r)
                            out = out + e["depo"] / d / d * r
                    rho = out
            else:
                for q in qs:
                    for s in c16.subspaces(e, o):
                        w = e["depo"] / 4
                        rho = (1 - 3 * w) * rho + w * sum(
                            conj({"g": g, "t": [q], "p": p, "c": None}, rho)
                            for g, p in (("noisex", list(s)), ("noisey", list(s)), ("noisez", s[1]))
                        )
                for q in qs:
                    for s in c16.subspaces(e, o):
                        for lv in range(ds[q]):
                            if lv not in s:
                                rho = (1 - e["deph"]) * rho + e["deph"] * conj({"g": "noisez", "t": [q], "p": lv, "c": None}, rho)
    return rho


def make(rng, backend):
    while True:
        ds = gen.dims(rng, 3, 4, 30)
        if backend == "misim":
            kinds = ["x", "z", "h", "r", "rz", "virtrz"] + (["csum", "cx"] if len(ds) > 1 else [])
            ops = gen.spec(rng, ds, kinds, int(rng.integers(1, 6)), ctrl=0.0)["ops"]
            ops = [o for o in ops if not (o["g"] in {"r", "rz", "virtrz"} and max(x for x in o["p"][: 1 if o["g"] == "virtrz" else 2]) >= min(ds))]
            if not ops:
                continue
        else:
            ops = gen.spec(rng, ds, [k for k in gen.ALL if k != "gellmann"], int(rng.integers(1, 6)), ctrl=0.2)["ops"]
        spec = {"dims": ds, "ops": ops}
        if rng.random() < 0.7:
            spec["ops"] = [{"g": "h", "t": [q], "c": None, "dag": False} for q in range(len(ds)) if rng.random() < 0.7] + ops
        entries, taken = [], set()
        for _ in range(int(rng.integers(1, 4))):
            o = spec["ops"][int(rng.integers(len(spec["ops"])))]
            users = [x for x in spec["ops"] if c16.tag(x) == c16.tag(o)]
            modes = [m for m in c16.ADD if all(c16.allowed(x, m) for x in users)]
            if backend == "misim":
                modes = [m for m in modes if all(m in c16.mi_modes(x) for x in users)]
            mode = str(rng.choice(modes))
            # a second mode on one gate of the decision-diagram simulator would be applied in an order of its own
            if (c16.tag(o), mode) in taken or (backend == "misim" and any(t == c16.tag(o) for t, _ in taken)):
                continue
            taken.add((c16.tag(o), mode))
            e = {"kind": "math", "mode": mode, "gates": [c16.tag(o)], "depo": float(rng.choice([0.0, rng.uniform(0.05, 1)])), "deph": float(rng.choice([0.0, rng.uniform(0.05, 0.95)]))}
            if backend == "tnsim" and rng.random() < 0.5:
                lo = min(ds[q] for x in users for q in c16.affected(x, mode, len(ds)))
                pairs = list(itertools.combinations(range(lo), 2))
                e.update(kind="sub", levels=[pairs[int(rng.integers(len(pairs)))]])
            entries.append(e)
        return spec, entries


def goodness(ctx, counts, probs, **info):
    c16.PVAL = PVAL
    c16.chi2(ctx, counts, np.where(probs < 1e-12, 0, probs), "measured outcomes", **info)


def runs(ctx, rng):
    from mqt.qudits.simulation import MQTQuditProvider

    name = str(rng.choice(["tnsim", "misim"]))
    spec, entries = make(rng, name)
    ds = spec["dims"]
    n = int(np.prod(ds))
    full = bool(rng.random() < 0.35)
    shots = int(rng.integers(50, 400)) if rng.random() < 0.9 else int(rng.integers(1000, 3000))
    save = bool(rng.random() < 0.5)
    memory = bool(rng.random() < 0.7)
    ctx.case({"backend": name, "spec": spec, "model": entries, "shots": shots, "states": full, "save": save, "memory": memory},
             [name, gen.sig(spec), [[e["kind"], e["mode"], e["gates"]] for e in entries], full, save, memory])
    circ = sut.build(spec)
    ids = [id(g) for g in circ.instructions]
    where = ctx.scratch / f"run{ctx.events['runs']}"
    where.mkdir()
    opts = {"noise_model": c16.model(entries), "shots": shots, "full_state_memory": full, "memory": memory}
    if save:
        opts.update(file_path=str(where), file_name="out.h5")
        if rng.random() < 0.2:
            # half of what is needed to save
            del opts[str(rng.choice(["file_path", "file_name"]))]
            save = False
            ctx.ev("half_asked")
    b = MQTQuditProvider().get_backend(name)
    with ctx.quiet():
        job = b.run(circ, **opts)
    res = job.result()
    info = {"backend": name, "spec": spec, "model": entries}
    ctx.check(ref.dist(np.asarray(res.get_state_vector()).ravel(), ref.state(spec)) < 1e-8, "the state vector of a noisy run is not the noiseless state", **info)
    ctx.check([id(g) for g in circ.instructions] == ids, "running a circuit changes it", **info)
    out = list(res.get_counts())
    ctx.check(len(out) == shots, "a run returns another number of shots than asked for", got=len(out), want=shots)
    rho = rho_of(spec, entries, name)
    p = np.real(np.diag(rho)).clip(0)
    p /= p.sum()
    if full:
        vs = np.array([np.asarray(v).ravel() for v in out])
        ctx.check(vs.shape == (shots, n), "the states have another size than the register", got=vs.shape)
        ctx.check(np.abs(np.linalg.norm(vs, axis=1) - 1).max() < 1e-8, "a state of a noisy run is not normalised", **info)
        mean = (np.abs(vs) ** 2).mean(0)
        bound = np.sqrt(np.log(2 * n / PVAL) / 2 / shots)
        ctx.check(np.abs(mean - p).max() < bound, "the states of a noisy run have another distribution than the noise model", got=np.round(mean, 3), want=np.round(p, 3), **info)
        # fidelity with fixed states sees phases as well
        for k in range(3):
            w = ref.rand_state(n, int(rng.integers(1 << 30))) if k else ref.state(spec)
            f = (np.abs(vs.conj() @ w) ** 2).mean()
            want = np.real(w.conj() @ rho @ w)
            ctx.check(abs(f - want) < bound, "the states of a noisy run have another fidelity than the noise model says", got=f, want=want, **info)
        ctx.ev("state_runs")
    else:
        ctx.check(all(float(o) == int(o) and 0 <= int(o) < n for o in out), "an outcome is no index of a basis state", **info)
        goodness(ctx, np.bincount([int(o) for o in out], minlength=n), p, **info)
        # consecutive shots do not depend on each other
        hit = np.array(out) == int(np.argmax(p))
        for lag in (1, 2, 7):
            c16.independent(ctx, hit[:-lag], hit[lag:], f"shots {lag} apart", **info)
        ctx.ev("shot_runs")
        ctx.ev("shots", shots)
    ctx.check(not Path("out.h5").exists(), "a run writes into the working directory")
    check_files(ctx, where, out, full, memory, save)
    ctx.ev(f"runs:{name}")
    ctx.ev("runs")
    ctx.mx("mixedness", 1 - np.real(np.trace(rho @ rho)))


def check_files(ctx, where, out, full, memory, save):
    import h5py

    files = sorted(f.name for f in where.iterdir())
    ctx.check(files == (["out.h5"] if save and (full or memory) else []), "a run writes other files than asked for", got=files, save=save, memory=memory, states=full)
    if files:
        with h5py.File(where / "out.h5") as f:
            keys = list(f.keys())
            data = f[keys[0]][...]
        if full:
            ctx.check(keys == ["vectors"] and len(data) == len(out), "the file has another number of states", got=len(data))
            same = all(np.array_equal(np.asarray(r["vector_data"]).ravel(), np.asarray(v).ravel()) for r, v in zip(data, out))
            ctx.check(same, "the saved states are not the returned ones, in order")
            ctx.check(len({r["name"] for r in data}) == len(data), "saved states share a name")
        else:
            ctx.check(keys == ["shots"] and [int(r["nr"]) for r in data] == list(range(len(out))), "the shots in the file are not numbered", keys=keys)
            ctx.check([int(r["shot"]) for r in data] == [int(o) for o in out], "the saved shots are not the returned ones, in order")
        ctx.ev("files")


def entropy(ctx, rng):
    """Outcomes over many equally likely states collide no more than independent ones, in one run and between runs."""
    from mqt.qudits.simulation import MQTQuditProvider

    name = str(rng.choice(["tnsim", "misim"]))
    ds = gen.ints(rng.integers(3, 6, 5))
    shots = int(rng.integers(150, 300))
    spec = {"dims": ds, "ops": [{"g": "h", "t": [q], "c": None, "dag": False} for q in range(5)]}
    ctx.case({"backend": name, "dims": ds, "shots": shots}, [name, ds])
    m = c16.model([{"kind": "math", "mode": "local", "gates": ["h"], "depo": 0.3, "deph": 0.2}])
    circ = sut.build(spec)
    b = MQTQuditProvider().get_backend(name)
    with ctx.quiet():
        out = [list(map(int, b.run(circ, noise_model=m, shots=shots).result().get_counts())) for _ in range(2)]
    n = int(np.prod(ds))
    both = out[0] + out[1]
    k = len(both)
    pairs = k * (k - 1) / 2
    coll = sum(c * (c - 1) // 2 for c in np.bincount(both))
    ctx.check(stats.poisson.sf(coll - 1, pairs / n) > PVAL, "outcomes repeat more often than independent ones do", collisions=coll, expected=pairs / n, backend=name)
    ctx.check(out[0] != out[1], "two runs return the same shots", backend=name)
    for q in range(5):
        digit = np.array([np.unravel_index(o, ds)[q] for o in both])
        goodness(ctx, np.bincount(digit, minlength=ds[q]), np.full(ds[q], 1 / ds[q]), line=q, backend=name)
    # errors differ between shots as well: states of one run
    with ctx.quiet():
        vs = b.run(sut.build({"dims": ds, "ops": spec["ops"] * 3}), noise_model=m, shots=50, full_state_memory=True).result().get_counts()
    vs = np.array([np.asarray(v).ravel() for v in vs])
    g = np.abs(vs.conj() @ vs.T)
    # 15 gates with error probability about 0.3 each: equal patterns are the exception
    same = (np.sum(g > 1 - 1e-9) - len(vs)) / 2
    ctx.check(same < 0.35 * len(vs) * (len(vs) - 1) / 2, "most shots have the same errors", pairs=same, backend=name)
    ctx.ev(f"entropy:{name}")


def quiet_noise(ctx, rng):
    """Noise that never strikes leaves the distribution of the noiseless circuit."""
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.noise_tools import NoiseModel

    name = str(rng.choice(["tnsim", "misim"]))
    spec, entries = make(rng, name)
    for e in entries:
        e["depo"] = e["deph"] = 0.0
    if rng.random() < 0.3:
        entries = []
    n = int(np.prod(spec["dims"]))
    ctx.case({"backend": name, "spec": spec, "model": entries}, [name, gen.sig(spec), len(entries)])
    m = c16.model(entries) if entries else NoiseModel()
    with ctx.quiet():
        b = MQTQuditProvider().get_backend(name)
        out = b.run(sut.build(spec), noise_model=m, shots=120).result().get_counts()
        vs = b.run(sut.build(spec), noise_model=m, shots=50, full_state_memory=True).result().get_counts()
    want = ref.state(spec)
    for v in vs:
        ctx.check(ref.dist(np.asarray(v).ravel(), want) < 1e-8, "noise of probability zero changes the state", backend=name, spec=spec)
    p = np.abs(want) ** 2
    goodness(ctx, np.bincount([int(o) for o in out], minlength=n), p / p.sum(), backend=name, spec=spec)
    ctx.ev("without_noise")


def saving(ctx, rng):
    """The functions that write results write all of them, in order."""
    from mqt.qudits.simulation.save_info import save_full_states, save_shots

    where = ctx.scratch / f"save{ctx.events['saves']}"
    where.mkdir()
    k = int(rng.integers(1, 200))
    n = int(rng.integers(2, 60))
    full = bool(rng.random() < 0.5)
    if rng.random() < 0.25:  # many results, or large ones
        k, n = (int(rng.integers(1000, 12000)), int(rng.integers(2, 9))) if rng.random() < 0.7 else (int(rng.integers(1, 20)), int(rng.integers(500, 5000)))
        ctx.ev("large_files")
    big = int(rng.choice([10, 1 << 20, 1 << 40]))
    ctx.case({"n": n, "k": k, "states": full, "big": big}, [n, k, full, big])
    with ctx.quiet():
        if full:
            out = [ref.rand_state(n, int(rng.integers(1 << 30))).reshape(1, n) for _ in range(k)]
            save_full_states(out, where if rng.random() < 0.5 else str(where), "out.h5")
        else:
            out = gen.ints(rng.integers(0, big, k))
            save_shots(out, where if rng.random() < 0.5 else str(where), "out.h5")
    check_files(ctx, where, out, full, True, True)
    ctx.ev("saves")


KINDS = {
    "runs": {"fn": runs, "quick": 48, "thorough": 700},
    "entropy": {"fn": entropy, "quick": 8, "thorough": 100},
    "quiet_noise": {"fn": quiet_noise, "quick": 12, "thorough": 150},
    "saving": {"fn": saving, "quick": 60, "thorough": 600},
}
REQUIRED = {"runs:tnsim": 6, "runs:misim": 6, "state_runs": 4, "shot_runs": 10, "shots": 2000, "files": 20, "entropy:tnsim": 1, "entropy:misim": 1, "without_noise": 3, "saves": 15, "large_files": 5, "independence_tests": 5}
ASSUMPTIONS = [
    "numpy's and scipy's arithmetic",
    f"frequencies are judged by tests that fail by chance with probability below {PVAL}",
    "shots are drawn from the operating system's entropy and differ between runs of the check",
]
BUDGET = {"quick": 90, "thorough": 650}
