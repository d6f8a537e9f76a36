"""C16: simulated noise adds the errors the noise model names, where and as often as it says, and nothing else."""
from __future__ import annotations

import itertools

import numpy as np
from scipy import stats

from lib import gen, ref, sut
from lib.harness import Skip

PID = "C16"
NEEDS_BINDINGS = True
RULE = (
    "random circuit under a random noise model (mathematical and subspace noise, five modes, several modes per gate), unravelled many "
    "times by the circuit factory or run on the decision-diagram simulator; distinct by dimensions, gate structure and noise model; each "
    "case inspects every error that was added or tests how often each one occurs"
)
PVAL = 1e-9
TAGS = {"r": "rxy", "cu_one": "cuone", "cu_two": "cutwo", "cu_multi": "cumulti", "noisez": "virtrz"}
ADD = {
    "local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
    "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control",
}
LEVELED = {"r", "rz", "rh", "cx"}
SEP = "pm"


def tag(o):
    return TAGS.get(o["g"], o["g"])


def lines(o):
    """Control lines first, then the targets."""
    return (list(o["c"][0]) if o.get("c") else []) + list(o["t"])


def affected(o, mode, n):
    ls = lines(o)
    if mode == "all":
        return list(range(n))
    if mode == "control":
        return ls[:1]
    if mode == "target":
        return ls if len(ls) == 1 else ls[max(1, len(o["c"][0]) if o.get("c") else 0):]
    return ls


def allowed(o, mode):
    k = len(lines(o))
    return {"nonlocal": k > 1, "control": k == 2 and o["g"] != "cu_multi"}.get(mode, True)


def noise(kind, depo, deph, levels=None):
    from mqt.qudits.simulation.noise_tools import Noise, SubspaceNoise

    return Noise(depo, deph) if kind == "math" else SubspaceNoise(depo, deph, levels)


def model(entries):
    from mqt.qudits.simulation.noise_tools import NoiseModel

    m = NoiseModel()
    for e in entries:
        getattr(m, ADD[e["mode"]])(noise(e["kind"], e["depo"], e["deph"], e.get("levels")), e["gates"])
    return m


def with_separators(ops):
    out = []
    for o in ops:
        out += [o, {"g": SEP, "t": [0], "c": None, "p": None}]
    return out


def make_circuit(rng, n_ops, nmax=3, dmax=4):
    ds = gen.dims(rng, nmax, dmax, 60, wide=False)
    kinds = [k for k in gen.ALL if k != SEP]
    ops = gen.spec(rng, ds, kinds, n_ops, ctrl=0.25)["ops"]
    ops = with_separators(ops)
    for o in ops:
        if o["g"] == SEP:
            o["p"] = list(range(ds[0]))
    return {"dims": ds, "ops": ops}


def make_model(rng, spec, prob):
    """Noise entries that fit the circuit, at most one per gate tag and mode."""
    ds = spec["dims"]
    entries, taken = [], set()
    tags = sorted({tag(o) for o in spec["ops"] if o["g"] != SEP})
    for _ in range(int(rng.integers(1, 5))):
        kind = str(rng.choice(["math", "sub", "dyn"]))
        mode = str(rng.choice(list(ADD)))
        gates = [str(t) for t in rng.permutation(tags)[: int(rng.integers(1, 3))]]
        users = [o for o in spec["ops"] if tag(o) in gates]
        gates = [g for g in gates if (g, mode) not in taken and all(allowed(o, mode) for o in users if tag(o) == g)]
        users = [o for o in spec["ops"] if tag(o) in gates]
        if kind == "dyn":
            gates = [g for g in gates if all(o["g"] in LEVELED and o.get("p") is not None for o in users if tag(o) == g)]
            users = [o for o in spec["ops"] if tag(o) in gates]
            if any(max(o["p"][:2]) >= ds[q] for o in users for q in affected(o, mode, len(ds))):
                continue
        if not gates:
            continue
        e = {"kind": "math" if kind == "math" else "sub", "mode": mode, "gates": gates, "depo": prob(), "deph": prob()}
        if kind == "dyn":
            e["levels"] = []
        elif kind == "sub":
            lo = min(ds[q] for o in users for q in affected(o, mode, len(ds)))
            pairs = list(itertools.combinations(range(lo), 2))
            pick = [pairs[i] for i in rng.permutation(len(pairs))[: int(rng.integers(1, min(3, len(pairs)) + 1))]]
            pick = [p if rng.random() < 0.7 else p[::-1] for p in pick]
            e["levels"] = pick[0] if len(pick) == 1 and rng.random() < 0.5 else pick
        taken |= {(g, mode) for g in gates}
        entries.append(e)
    if not entries:
        raise Skip("no noise fits the circuit")
    return entries


def subspaces(e, o):
    lv = e["levels"]
    if lv == []:
        return [tuple(sorted(o["p"][:2]))]
    return [tuple(sorted(p)) for p in ([lv] if isinstance(lv, tuple) else lv)]


def blocks(ctx, spec, circ, noisy):
    """Splits the noisy circuit: for every gate of the original the errors behind it."""
    want = circ.instructions
    gs = list(noisy.instructions)
    ctx.check(noisy.number_gates == len(gs) and list(noisy.dimensions) == spec["dims"], "the noisy circuit has other lines or counts its gates wrongly", spec=spec)
    out, i = [], 0
    for k in range(0, len(want), 2):
        for g in want[k : k + 2]:
            if g is not want[k]:
                j = i
                while j < len(gs) and gs[j].qasm_tag != g.qasm_tag:
                    j += 1
                out.append(gs[i:j])
                i = j
            ctx.check(i < len(gs), "the noisy circuit lacks gates", spec=spec)
            h = gs[i]
            ctx.check(type(h) is type(g) and h.reference_lines == g.reference_lines and ref.dist(h.to_matrix(2), g.to_matrix(2)) < 1e-12,
                      "the noisy circuit has another gate in place of the one it was given", want=g.qasm_tag, got=h.qasm_tag, lines=h.reference_lines, spec=spec)
            i += 1
    ctx.check(i == len(gs), "errors are added at the end of the circuit, behind a gate without noise", spec=spec)
    return out


def structure(ctx, rng):
    from mqt.qudits.simulation.noise_tools import NoisyCircuitFactory

    spec = make_circuit(rng, int(rng.integers(1, 6)))
    prob = lambda: float(rng.choice([0.0, 1.0, rng.uniform(0.2, 1)]))  # noqa: E731
    entries = make_model(rng, spec, prob)
    ctx.case({"spec": spec, "model": entries}, [gen.sig(spec), entries])
    circ = sut.build(spec)
    m = model(entries)
    before = str(m)
    ids = [id(g) for g in circ.instructions]
    n, ds = len(spec["dims"]), spec["dims"]
    factory = NoisyCircuitFactory(m, circ)
    real = [o for o in spec["ops"] if o["g"] != SEP]
    for _ in range(4):
        noisy = factory.generate_circuit()
        bl = blocks(ctx, spec, circ, noisy)
        for o, errs in zip(real, bl):
            here = [e for e in entries if tag(o) in e["gates"]]
            for q in range(n):
                mine = [g for g in errs if g.reference_lines == [q]]
                on = [e for e in here if q in affected(o, e["mode"], n)]
                xs = sum(g.qasm_tag == "x" for g in mine)
                zs = sum(g.qasm_tag == "z" for g in mine)
                k = sum(e["kind"] == "math" and e["depo"] > 0 for e in on)
                ctx.check(xs <= k * (ds[q] - 1) and zs <= k * (ds[q] - 1), "more shift errors than the noise model allows", gate=o, line=q, x=xs, z=zs, model=entries)
                pairs = [p for e in on if e["kind"] == "sub" for p in subspaces(e, o) if e["depo"] > 0]
                flips = [tuple(sorted(g._params)) for g in mine if g.qasm_tag in {"noisex", "noisey"}]  # noqa: SLF001
                ctx.check(all(flips.count(f) <= pairs.count(f) for f in flips), "a flip between levels the noise model does not name", gate=o, line=q, got=flips, allowed=pairs)
                # phase flips: on the upper level of a subspace by depolarising, outside of it by dephasing
                top = [p[1] for p in pairs]
                sure = [lv for e in on if e["kind"] == "sub" and e["deph"] == 1 for p in subspaces(e, o) for lv in range(ds[q]) if lv not in p]
                maybe = [lv for e in on if e["kind"] == "sub" and 0 < e["deph"] < 1 for p in subspaces(e, o) for lv in range(ds[q]) if lv not in p]
                ph = [g._params[0] for g in mine if g.qasm_tag == "virtrz"]  # noqa: SLF001
                ok = all(abs(abs(g._params[1]) - np.pi) < 1e-9 for g in mine if g.qasm_tag == "virtrz")  # noqa: SLF001
                for lv in range(ds[q]):
                    c = ph.count(lv)
                    ok = ok and sure.count(lv) <= c <= sure.count(lv) + maybe.count(lv) + top.count(lv)
                ctx.check(ok, "phase flips on other levels than the noise model says", gate=o, line=q, got=ph, certain=sure, possible=maybe + top, model=entries)
                ctx.check(all(g.qasm_tag in {"x", "z", "noisex", "noisey", "virtrz"} and not g.dagger for g in mine), "an error of an unknown kind", got=[g.qasm_tag for g in mine])
                # certain depolarisation of a subspace leaves one of four errors, three of them visible
                if mine:
                    ctx.ev("errors", len(mine))
                if sure:
                    ctx.ev("certain_phase_flips", len(sure))
            ctx.check(all(len(g.reference_lines) == 1 for g in errs), "an error on several lines", spec=spec)
            for e in here:
                ctx.ev(f"{e['kind']}:{e['mode']}")
        if all(e["depo"] == 0 and e["deph"] == 0 for e in entries):
            ctx.check(len(noisy.instructions) == len(circ.instructions), "errors of probability zero occur", model=entries)
            ctx.ev("noiseless")
    ctx.check([id(g) for g in circ.instructions] == ids and circ.number_gates == len(ids), "making noise changes the circuit it is given", spec=spec)
    ctx.check(str(m) == before, "making noise changes the noise model", before=before, after=str(m))
    ctx.ev("circuits", 4)


def pick_gate(rng, ds, dyn=False):
    if dyn:
        return gen.op(rng, ds, ["r", "rz", "rh"] + (["cx"] if len(ds) > 1 else []), ctrl=0.0)
    return gen.op(rng, ds, [k for k in gen.ALL if k != SEP and (len(ds) > 1 or k not in gen.MULTI)], ctrl=0.3)


def chi2(ctx, counts, probs, what, **info):
    counts, probs = np.asarray(counts, float).ravel(), np.asarray(probs, float).ravel()
    n = counts.sum()
    ctx.check(not counts[probs <= 0].any(), f"{what}: an impossible error occurred", counts=counts, probs=probs, **info)
    k = probs > 0
    if k.sum() > 1:
        # cells of few expected events are taken together
        small = k & (n * probs < 6)
        exp = list(n * probs[k & ~small])
        obs = list(counts[k & ~small])
        if small.any():
            if n * probs[small].sum() < 6 and exp:
                i = int(np.argmin(exp))
                exp[i] += n * probs[small].sum()
                obs[i] += counts[small].sum()
            else:
                exp.append(n * probs[small].sum())
                obs.append(counts[small].sum())
        if len(exp) > 1:
            s = sum((o - e) ** 2 / e for o, e in zip(obs, exp))
            p = stats.chi2.sf(s, len(exp) - 1)
            ctx.check(p > PVAL, f"{what}: errors do not occur as often as the noise model says (p={p:.2g})", observed=obs, expected=exp, **info)
            ctx.mx("minus_log10_p", -np.log10(max(p, 1e-300)))
    ctx.ev("samples", int(n))


def independent(ctx, a, b, what, **info):
    """Two indicator sequences of the same length."""
    a, b = np.asarray(a, bool), np.asarray(b, bool)
    t = np.array([[np.sum(a & b), np.sum(a & ~b)], [np.sum(~a & b), np.sum(~a & ~b)]], float)
    if (t.sum(0) < 30).any() or (t.sum(1) < 30).any():
        return
    e = np.outer(t.sum(1), t.sum(0)) / t.sum()
    p = stats.chi2.sf(((t - e) ** 2 / e).sum(), 1)
    ctx.check(p > PVAL, f"{what}: errors at different places are not independent (p={p:.2g})", table=t, **info)
    ctx.ev("independence_tests")


def rates(ctx, rng):
    from mqt.qudits.simulation.noise_tools import NoisyCircuitFactory

    ds = gen.dims(rng, 2, 4, 16, wide=False)
    kind = str(rng.choice(["math", "sub", "dyn"]))
    o = pick_gate(rng, ds, kind == "dyn")
    modes = [m for m in ADD if allowed(o, m)]
    mode = str(rng.choice(modes))
    e = {"kind": "math" if kind == "math" else "sub", "mode": mode, "gates": [tag(o)], "depo": float(rng.choice([1.0, rng.uniform(0.15, 1)])), "deph": float(rng.uniform(0.1, 0.9))}
    qs = affected(o, mode, len(ds))
    if kind == "dyn":
        e["levels"] = []
        if o.get("p") is None or any(max(o["p"][:2]) >= ds[q] for q in qs):
            raise Skip("levels beyond a line")
    elif kind == "sub":
        lo = min(ds[q] for q in qs)
        pairs = list(itertools.combinations(range(lo), 2))
        e["levels"] = [pairs[i] for i in rng.permutation(len(pairs))[: int(rng.integers(1, min(2, len(pairs)) + 1))]]
    spec = {"dims": ds, "ops": with_separators([o, o, o])}
    for x in spec["ops"]:
        if x["g"] == SEP:
            x["p"] = list(range(ds[0]))
    ctx.case({"spec": spec, "model": e}, [gen.sig(spec), e])
    circ = sut.build(spec)
    f = NoisyCircuitFactory(model([e]), circ)
    reps = 900 if ctx.thorough else 250
    hits: dict = {}
    seen: dict = {}
    for r in range(reps):
        if r % 40 == 39:
            f = NoisyCircuitFactory(model([e]), circ)
        for k, errs in enumerate(blocks(ctx, spec, circ, f.generate_circuit())):
            for q in range(len(ds)):
                mine = [g for g in errs if g.reference_lines == [q]]
                if q not in qs:
                    ctx.check(not mine, "an error on a line the mode does not name", gate=o, line=q, mode=mode)
                    continue
                if kind == "math":
                    u = np.eye(ds[q], dtype=complex)
                    for g in mine:
                        u = np.asarray(g.to_matrix(0)) @ u
                    # X^a Z^b up to a phase
                    col = u[:, 0]
                    a = int(np.argmax(np.abs(col)))
                    b = int(round(np.angle(u[(a + 1) % ds[q], 1] / u[a, 0]) * ds[q] / (2 * np.pi))) % ds[q]
                    seen.setdefault(q, np.zeros((ds[q], ds[q])))[a, b] += 1
                    hits.setdefault((k, q), []).append((a, b) != (0, 0))
                else:
                    flips = [(tuple(sorted(g._params)), g.qasm_tag) for g in mine if g.qasm_tag != "virtrz"]  # noqa: SLF001
                    ph = [g._params[0] for g in mine if g.qasm_tag == "virtrz"]  # noqa: SLF001
                    seen.setdefault(q, []).append((flips, ph))
                    hits.setdefault((k, q), []).append(bool(mine))
    info = {"gate": o, "model": e}
    for q in qs:
        d = ds[q]
        if kind == "math":
            p = np.full((d, d), e["depo"] / d / d)
            p[0, 0] = 1 - p.sum() + p[0, 0]
            chi2(ctx, seen[q], p, "shift errors", **info)
            continue
        sub = subspaces(e, o)
        data = seen[q]
        for s in sub:
            nx = [sum(t == "noisex" and lv == s for lv, t in fl) for fl, _ in data]
            ny = [sum(t == "noisey" and lv == s for lv, t in fl) for fl, _ in data]
            ctx.check(max(nx) <= 1 and max(ny) <= 1, "an error occurs twice", **info)
            w = e["depo"] / 4
            c = [sum(nx), sum(ny)]
            chi2(ctx, [*c, len(data) - sum(c)], [w, w, 1 - 2 * w], "level flips", **info)
        # phase flips per level, conditioned on no level flip of the subspaces whose upper level it is
        for lv in range(d):
            deph = sum(lv not in s for s in sub)
            top = sum(s[1] == lv for s in sub)
            if deph + top == 1:
                c = sum(ph.count(lv) for _, ph in data)
                w = e["deph"] if deph else e["depo"] / 4
                chi2(ctx, [c, len(data) - c], [w, 1 - w], "phase flips", level=lv, **info)
            elif deph + top == 0:
                ctx.check(not any(lv in ph for _, ph in data), "a phase flip on a level without noise", level=lv, **info)
    keys = sorted(hits)
    for a, b in itertools.combinations(keys, 2):
        independent(ctx, hits[a], hits[b], "noise", places=[a, b], **info)
    one = hits[keys[0]]
    independent(ctx, one[:-1], one[1:], "noise in consecutive circuits", **info)
    ctx.ev(f"rates:{kind}")


def fresh(ctx, rng):
    """Every generated circuit has noise of its own, whoever generates it and whenever."""
    from mqt.qudits.simulation.noise_tools import NoisyCircuitFactory

    d = int(rng.integers(2, 5))
    spec = {"dims": [d], "ops": [{"g": "h", "t": [0], "c": None}] * 40}
    e = {"kind": "math", "mode": "local", "gates": ["h"], "depo": 1.0, "deph": 0.0}
    ctx.case({"spec": spec, "round": int(rng.integers(1 << 30))})
    circ = sut.build(spec)
    m = model([e])
    out = []
    for _ in range(6):
        f = NoisyCircuitFactory(m, circ)
        out += [tuple(g.qasm_tag for g in f.generate_circuit().instructions) for _ in range(2)]
    ctx.check(len(set(out)) == len(out), "two generated circuits have the same noise", distinct=len(set(out)), of=len(out))
    ctx.ev("fresh")


def refusals(ctx, rng):
    """Noise that cannot be applied is refused instead of being applied elsewhere."""
    from mqt.qudits.simulation.noise_tools import NoiseModel, NoisyCircuitFactory

    ds = gen.dims(rng, 3, 4, 40, nmin=2, wide=False)
    what = str(rng.choice(["nonlocal-on-single", "control-on-single", "control-on-many", "levels", "twice", "levels-twice", "equal-levels", "mixed", "mixed-later", "dynamic-twice"]))
    ctx.case({"what": what, "dims": ds}, [what, ds])
    err: tuple = (ValueError, AssertionError, IndexError)
    try:
        if what in {"nonlocal-on-single", "control-on-single", "control-on-many", "levels"}:
            if what == "control-on-many":
                if len(ds) < 3:
                    raise Skip("needs three lines")
                o = {"g": "cu_multi", "t": gen.ints(rng.permutation(3)), "u": 5, "c": None}
                mode = "control"
            else:
                o = gen.op(rng, ds, ["h", "x", "r"], ctrl=0.0)
                mode = {"nonlocal-on-single": "nonlocal", "control-on-single": "control"}.get(what, "local")
            e = {"kind": "math", "mode": mode, "gates": [tag(o)], "depo": 0.5, "deph": 0.5}
            if what == "levels":
                e.update(kind="sub", levels=(int(rng.integers(2)), ds[o["t"][0]]))
            NoisyCircuitFactory(model([e]), sut.build({"dims": ds, "ops": [o]})).generate_circuit()
        elif what == "twice":
            m = NoiseModel()
            for _ in range(2):
                getattr(m, ADD["local"])(noise("math", 0.1, 0.1), ["h"])
        elif what == "levels-twice":
            noise("sub", 0.1, 0.1, [(0, 1), (1, 0)])
        elif what == "equal-levels":
            noise("sub", 0.1, 0.1, (1, 1))
        else:
            # noise on the levels of the gate, and noise on fixed levels, in either order
            m = NoiseModel()
            fixed: object = (0, 1) if rng.random() < 0.6 else [(0, 1), (2, 1)]
            pair = [[], fixed] if what == "mixed" else [fixed, []] if what == "mixed-later" else [[], []]
            gates = ["h", "rxy"][: int(rng.integers(1, 3))]
            mode = str(rng.choice(list(ADD)))
            getattr(m, ADD[mode])(noise("sub", 0.1, 0.1, pair[0]), gates)
            before = str(m)
            with ctx.quiet():
                try:
                    getattr(m, ADD[mode])(noise("sub", 0.1, 0.1, pair[1]), gates[-1:])
                except err:
                    ctx.check(str(m) == before, "refused noise was added in part", order=what, before=before, after=str(m))
                    raise
    except err:
        ctx.ev("refused")
        ctx.seen("refusal", what)
        ctx.check(True, "")
    else:
        ctx.fail(f"noise that makes no sense is accepted: {what}", dims=ds)


def models(ctx, rng):
    """The noise model holds what was added to it, each gate for itself."""
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel

    m = NoiseModel()
    mine: dict = {}
    log = []
    kept = []
    for _ in range(int(rng.integers(1, 9))):
        gates = [str(g) for g in rng.permutation(["h", "x", "cx", "rxy"])[: int(rng.integers(1, 4))]]
        mode = str(rng.choice(list(ADD)))
        pair = tuple(sorted(gen.ints(rng.permutation(4)[:2])))
        math = rng.random() < 0.3
        a, b = (float(round(x, 3)) for x in rng.random(2))
        log.append([gates, mode, None if math else pair, a, b])
        n = noise("math", a, b) if math else noise("sub", a, b, pair)
        kept.append((n, str(n)))
        bad = any((g, mode) in mine and (math or isinstance(mine[g, mode], tuple) or pair in mine[g, mode]) for g in gates)
        if bad:
            # refused additions may already have reached the gates named first
            continue
        getattr(m, ADD[mode])(n, gates)
        for g in gates:
            if math:
                mine[g, mode] = (a, b)
            else:
                mine.setdefault((g, mode), {})[pair] = (a, b)
    ctx.case(log)
    got = {}
    for g, modes in m.quantum_errors.items():
        for mode, n in modes.items():
            if isinstance(n, Noise):
                got[g, mode] = (n.probability_depolarizing, n.probability_dephasing)
            else:
                got[g, mode] = {k: (v.probability_depolarizing, v.probability_dephasing) for k, v in n.subspace_w_probs.items()}
    ctx.check(got == mine, "the noise model holds other noise than was added", got=str(got), want=str(mine))
    ctx.check(sorted(m.basis_gates) == sorted({g for g, _ in mine}), "the gates of the noise model are wrong", got=m.basis_gates)
    ctx.check(all(str(n) == s for n, s in kept), "adding noise changes the noise objects given")
    ctx.ev("models")


# ---------------------------------------------------------------- the decision-diagram simulator's own noise
def mi_errors(o, ds, x, q):
    """The error the decision-diagram simulator adds on line q."""
    if o["g"] in {"r", "rz", "virtrz"}:
        if o["g"] == "virtrz":
            a = o["p"][0] if o["p"][0] != ds[q] - 1 else ds[q] - 2
            lv = [a, a + 1]
        else:
            lv = sorted(o["p"][:2])
        return {"g": "r", "t": [q], "p": [*lv, np.pi, np.pi / 2], "c": None} if x else {"g": "rz", "t": [q], "p": [*lv, np.pi], "c": None}
    return {"g": "x" if x else "z", "t": [q], "c": None}


def mi_make(rng, n_ops):
    ds = gen.dims(rng, 3, 4, 40, wide=False)
    pre = gen.mixing(rng, ds)
    kinds = ["x", "z", "h", "r", "rz", "virtrz"] + (["csum", "cx"] if len(ds) > 1 else [])
    ops = gen.spec(rng, ds, kinds, n_ops, ctrl=0.0)["ops"]
    ops = [o for o in ops if not (o["g"] in {"r", "rz", "virtrz"} and max([o["p"][0]] + ([o["p"][1]] if o["g"] != "virtrz" else [])) >= min(ds))]
    if not ops:
        raise Skip("no gate fits")
    return ds, pre, ops


def mi_modes(o):
    return ["local", "all", *(["nonlocal", "control", "target"] if len(o["t"]) == 2 else [])]


def mi_run(circ, m):
    from mqt.qudits.simulation import MQTQuditProvider

    return np.asarray(MQTQuditProvider().get_backend("misim").execute(circ, m)).ravel()


def misim_certain(ctx, rng):
    ds, pre, ops = mi_make(rng, int(rng.integers(1, 5)))
    entries, taken = [], {}
    for o in ops:
        for mode in [str(m) for m in rng.permutation(mi_modes(o))[: int(rng.integers(0, 3))]]:
            if (tag(o), mode) not in taken and not any(tag(x) == tag(o) and mode not in mi_modes(x) for x in ops):
                taken[tag(o), mode] = (float(rng.integers(2)), float(rng.integers(2)))
                entries.append({"kind": "math", "mode": mode, "gates": [tag(o)], "depo": taken[tag(o), mode][0], "deph": taken[tag(o), mode][1]})
    # the preparation must stay free of noise: its rotations are hidden in a prefix simulated separately
    used = {t for t, _ in taken}
    names = {"h", "virtrz", "rxy"} & used
    pre = [p for p in pre if tag(p) not in names]
    spec = {"dims": ds, "ops": pre + ops}
    ctx.case({"spec": spec, "model": entries}, [gen.sig(spec), entries])
    got = mi_run(sut.build(spec), model(entries))
    wants = []
    for orders in itertools.product(*[list(itertools.permutations([m for t, m in taken if t == tg])) for tg in sorted(used)]):
        order = dict(zip(sorted(used), orders))
        v = ref.zero(ds)
        for o in pre:
            v = ref.apply(o, ds, v)
        for o in ops:
            v = ref.apply(o, ds, v)
            for mode in order.get(tag(o), []):
                x, z = taken[tag(o), mode]
                for flag, isx in ((x, True), (z, False)):
                    for q in affected(o, mode, len(ds)) if flag else []:
                        v = ref.apply(mi_errors(o, ds, isx, q), ds, v)
                        ctx.ev("misim_errors")
        wants.append(v)
    e = min(ref.phase_dist(got[:, None], w[:, None]) for w in wants)
    ctx.check(e < 1e-8, f"certain noise leads to a state that is off by {e:.3g}", spec=spec, model=entries)
    ctx.ev("misim_certain")


def misim_rates(ctx, rng):
    ds, pre, ops = mi_make(rng, 1)
    o = ops[0]
    mode = str(rng.choice(mi_modes(o)))
    pre = [p for p in pre if tag(p) != tag(o)]
    e = {"kind": "math", "mode": mode, "gates": [tag(o)], "depo": float(rng.uniform(0.1, 0.9)), "deph": float(rng.uniform(0.1, 0.9))}
    # the gate twice, to see that its two occurrences are independent
    spec = {"dims": ds, "ops": [*pre, o, o]}
    ctx.case({"spec": spec, "model": e}, [gen.sig(spec), e["mode"]])
    base = ref.zero(ds)
    for p in pre:
        base = ref.apply(p, ds, base)
    outs = []
    qs = affected(o, mode, len(ds))
    combos = list(itertools.product([0, 1], repeat=4))
    for x1, z1, x2, z2 in combos:
        v = base
        for x, z in ((x1, z1), (x2, z2)):
            v = ref.apply(o, ds, v)
            for flag, isx in ((x, True), (z, False)):
                for q in qs if flag else []:
                    v = ref.apply(mi_errors(o, ds, isx, q), ds, v)
        outs.append(v)
    # outcomes that give the same state are one class
    cls: list = []
    prob: list = []
    for c, v in zip(combos, outs):
        w = np.prod([(e["depo"] if f else 1 - e["depo"]) for f in c[::2]]) * np.prod([(e["deph"] if f else 1 - e["deph"]) for f in c[1::2]])
        for i, u in enumerate(cls):
            if abs(abs(np.vdot(u, v)) - 1) < 1e-4:
                prob[i] += w
                break
        else:
            cls.append(v)
            prob.append(w)
    if any(abs(abs(np.vdot(u, v)) - 1) < 2e-3 for u, v in itertools.combinations(cls, 2)):
        raise Skip("errors that can hardly be told apart")
    circ, m = sut.build(spec), model([e])
    seen = []
    for _ in range(1500 if ctx.thorough else 500):
        s = mi_run(circ, m)
        f = [abs(abs(np.vdot(u, s)) - 1) for u in cls]
        k = int(np.argmin(f))
        ctx.check(f[k] < 2e-4, "noise leads to a state no error of the model explains", model=e, spec=spec, closest=f[k])
        seen.append(k)
    chi2(ctx, np.bincount(seen, minlength=len(cls)), prob, "decision-diagram simulator", model=e, spec=spec)
    half = np.asarray(seen) == int(np.argmax(prob))
    independent(ctx, half[:-1], half[1:], "consecutive runs of the decision-diagram simulator", model=e)
    ctx.ev("misim_rates")


def misim_controls(ctx):
    """Controlled gates suffer noise on their control lines as well."""
    ds = [2, 3]
    o = {"g": "x", "t": [1], "c": [[0], [0]], "dag": False}
    e = {"kind": "math", "mode": "local", "gates": ["x"], "depo": 1.0, "deph": 0.0}
    ctx.case({"dims": ds, "op": o, "model": e})
    s = mi_run(sut.build({"dims": ds, "ops": [o]}), model([e]))
    # x on line 1 gives |0 1>, the errors make it |1 2>
    ctx.check(abs(abs(s[5]) - 1) < 1e-9, "noise misses the control line of a controlled gate", got=np.round(s, 3))


PROBES = [misim_controls]
KINDS = {
    "structure": {"fn": structure, "quick": 500, "thorough": 8000},
    "rates": {"fn": rates, "quick": 48, "thorough": 400},
    "fresh": {"fn": fresh, "quick": 24, "thorough": 200},
    "refusals": {"fn": refusals, "quick": 120, "thorough": 400},
    "models": {"fn": models, "quick": 300, "thorough": 3000},
    "misim_certain": {"fn": misim_certain, "quick": 500, "thorough": 10000},
    "misim_rates": {"fn": misim_rates, "quick": 60, "thorough": 500},
}
REQUIRED = {
    "circuits": 300, "errors": 500, "certain_phase_flips": 50, "noiseless": 1, "math:local": 20, "math:all": 10, "sub:local": 20, "sub:all": 8,
    "math:nonlocal": 5, "math:target": 10, "math:control": 3, "sub:target": 8, "samples": 5000, "independence_tests": 10, "rates:math": 4,
    "rates:sub": 4, "rates:dyn": 2, "fresh": 8, "refused": 20, "#refusal": 8, "models": 60, "misim_certain": 80, "misim_errors": 100, "misim_rates": 10,
}
ASSUMPTIONS = [
    "numpy's and scipy's arithmetic",
    f"frequencies are judged by tests that fail by chance with probability below {PVAL}",
    "the errors of each simulator are those its source names: shifts and phases, or flips within the named levels",
]
BUDGET = {"quick": 70, "thorough": 650}
