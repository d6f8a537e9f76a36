"""C12: moving phase rotations through a circuit and removing unobservable ones keep the computation and the outcome distribution."""
from __future__ import annotations

import numpy as np

from lib import device, gen, ref, sut

PID = "C12"
RULE = (
    "random circuit rich in phase rotations (with daggers, controls, entangling gates, several lines) through phase propagation in "
    "both directions, phase removal, and both in turn, also on compiled pulse sequences; distinct by dimensions and gate structure"
)
TOL = 1e-7
KINDS_ = ["h", "z", "r", "rz", "virtrz", "r", "virtrz", "r", "virtrz", "csum", "cx", "z", "noisez", "s", "cu_one", "x", "ls"]


def passes():
    from mqt.qudits.compiler.onedit import ZPropagationOptPass, ZRemovalOptPass

    return ZPropagationOptPass, ZRemovalOptPass


def make(rng, only=None):
    ds = gen.dims(rng, 4, 5, 100)
    ops = []
    style = int(rng.integers(3))
    q = 0
    for _ in range(int(rng.integers(1, 16))):
        if style != 1 or rng.random() < 0.3:
            q = int(rng.integers(len(ds)))
        kinds = only or (["r", "virtrz"] if style == 1 and rng.random() < 0.8 else KINDS_)
        kinds = [k for k in kinds if k != "s" or ref.is_prime(ds[q])]
        if len(ds) < 2:
            kinds = [k for k in kinds if k not in {"csum", "cx", "ls"}]
        k = str(rng.choice(kinds))
        if k in {"csum", "cx", "ls"}:
            ops.append(gen.op(rng, ds, [k], ctrl=0.0))
            continue
        o = {**gen.op(rng, [ds[q]], [k], ctrl=0.0, dag=0.25), "t": [q]}
        if len(ds) > 1 and rng.random() < 0.12:
            c = int(rng.choice([x for x in range(len(ds)) if x != q]))
            o["c"] = [[c], [int(rng.integers(ds[c]))]]
        ops.append(o)
    return {"dims": ds, "ops": ops}


def same(ctx, circ, ids, t, what, spec):
    ctx.check([id(g) for g in circ.instructions] == ids and ref.dist(device.product(circ.instructions, spec["dims"]), t) < 1e-9,
              f"{what} changes the circuit it is given", spec=spec)


def propagate(ctx, rng):
    spec = make(rng)
    back = bool(rng.random() < 0.5)
    ds = spec["dims"]
    ctx.case({"spec": spec, "back": back}, [gen.sig(spec), back])
    circ = sut.build(spec)
    ids = [id(g) for g in circ.instructions]
    t = ref.unitary(spec)
    prop, _ = passes()
    new = prop(device.backend("faketraps2trits"), back).transpile(circ)
    same(ctx, circ, ids, t, "phase propagation", spec)
    e = ref.phase_dist(device.product(new.instructions, ds), t)
    ctx.check(e < TOL, f"phase propagation ({'back' if back else 'forward'}) is off by {e:.3g}", spec=spec)
    ctx.check(new.number_gates == len(new.instructions) and list(new.dimensions) == ds, "the result counts its gates wrongly", spec=spec)
    s = np.asarray(new.simulate()).ravel()
    e = ref.dist(np.abs(s) ** 2, np.abs(t[:, 0]) ** 2)
    ctx.check(e < TOL, f"the distribution after phase propagation is off by {e:.3g}", spec=spec)
    again = prop(device.backend("faketraps2trits"), not back).transpile(new)
    e = ref.phase_dist(device.product(again.instructions, ds), t)
    ctx.check(e < TOL, f"propagating once more in the other direction is off by {e:.3g}", spec=spec)
    ctx.ev("back" if back else "forward")
    if [g.qasm_tag for g in new.instructions] != [g.qasm_tag for g in circ.instructions]:
        ctx.ev("moved")


def line(ctx, rng):
    """A line of plain rotations ends up as rotations with all phases on one side."""
    d = int(rng.integers(2, 7))
    back = bool(rng.random() < 0.5)
    ops = [gen.op(rng, [d], ["r", "virtrz"], ctrl=0.0, dag=0.2) for _ in range(int(rng.integers(2, 14)))]
    spec = {"dims": [d], "ops": ops}
    ctx.case({"spec": spec, "back": back}, [gen.sig(spec), back])
    circ = sut.build(spec)
    t = ref.unitary(spec)
    prop, rem = passes()
    be = device.backend("faketraps2trits")
    new = prop(be, back).transpile(circ)
    tags = [g.qasm_tag for g in new.instructions]
    r = [i for i, x in enumerate(tags) if x == "rxy"]
    v = [i for i, x in enumerate(tags) if x == "virtrz"]
    ctx.check(len(r) == sum(o["g"] == "r" for o in ops), "phase propagation changes the number of rotations", tags=tags, spec=spec)
    ctx.check(not r or not v or (max(v) < min(r) if back else min(v) > max(r)), "phases are left between the rotations", tags=tags, spec=spec)
    e = ref.phase_dist(device.product(new.instructions, [d]), t)
    ctx.check(e < TOL, f"phase propagation is off by {e:.3g}", spec=spec)
    clean = rem(be).transpile(new)
    ctx.check(all(g.qasm_tag == "rxy" for g in clean.instructions), "phases at the ends of a line are left behind", tags=[g.qasm_tag for g in clean.instructions], spec=spec)
    p = np.abs(device.product(clean.instructions, [d])[:, 0]) ** 2
    e = ref.dist(p, np.abs(t[:, 0]) ** 2)
    ctx.check(e < TOL, f"propagation and removal change the distribution by {e:.3g}", spec=spec)
    ctx.ev("lines")


def remove(ctx, rng):
    spec = make(rng)
    ds = spec["dims"]
    ctx.case(spec, gen.sig(spec))
    circ = sut.build(spec)
    ids = [id(g) for g in circ.instructions]
    t = ref.unitary(spec)
    prop, rem = passes()
    be = device.backend("faketraps2trits")
    new = rem(be).transpile(circ)
    same(ctx, circ, ids, t, "phase removal", spec)
    e = ref.dist(np.abs(device.product(new.instructions, ds)[:, 0]) ** 2, np.abs(t[:, 0]) ** 2)
    ctx.check(e < TOL, f"phase removal changes the distribution by {e:.3g}", spec=spec)
    gone = len(circ.instructions) - len(new.instructions)
    tags = [g.qasm_tag for g in new.instructions]
    it = iter([g.qasm_tag for g in circ.instructions])
    ctx.check(all(x in it for x in tags), "phase removal adds or reorders gates", spec=spec)
    ctx.check(new.number_gates == len(new.instructions), "the result counts its gates wrongly", spec=spec)
    ctx.ev("removed", gone)
    both = rem(be).transpile(prop(be, bool(rng.random() < 0.5)).transpile(new))
    e = ref.dist(np.abs(device.product(both.instructions, ds)[:, 0]) ** 2, np.abs(t[:, 0]) ** 2)
    ctx.check(e < TOL, f"removal, propagation and removal change the distribution by {e:.3g}", spec=spec)
    ctx.ev("removals")


def compiled(ctx, rng):
    """The passes on what the compiler itself produced."""
    from mqt.qudits.compiler.onedit import PhyLocQRPass

    d = int(rng.integers(2, 5))
    g = device.random_graph(rng, d)
    ops = [device.local_op(rng, d) for _ in range(int(rng.integers(1, 4)))]
    spec = {"dims": [d], "ops": ops}
    ctx.case({"graph": g, "spec": spec}, [g, gen.sig(spec)])
    be = device.custom([g])
    with device.limited(10):
        c1 = PhyLocQRPass(be).transpile(sut.build(spec))
    u = device.product(c1.instructions, [d])
    prop, rem = passes()
    for back in (True, False):
        c2 = prop(be, back).transpile(c1)
        e = ref.phase_dist(device.product(c2.instructions, [d]), u)
        ctx.check(e < TOL, f"phase propagation over compiled pulses is off by {e:.3g}", graph=g, spec=spec)
        c3 = rem(be).transpile(c2)
        e = ref.dist(np.abs(device.product(c3.instructions, [d])[:, 0]) ** 2, np.abs(u[:, 0]) ** 2)
        ctx.check(e < TOL, f"the distribution after all passes is off by {e:.3g}", graph=g, spec=spec)
    ctx.ev("compiled")


KINDS = {
    "propagate": {"fn": propagate, "quick": 1000, "thorough": 20000},
    "line": {"fn": line, "quick": 500, "thorough": 10000},
    "remove": {"fn": remove, "quick": 1000, "thorough": 20000},
    "compiled": {"fn": compiled, "quick": 200, "thorough": 3000},
}
REQUIRED = {"back": 100, "forward": 100, "moved": 60, "lines": 100, "removals": 200, "removed": 200, "compiled": 30}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "runs start in the all-zero state and are measured in the computational basis"]
BUDGET = {"quick": 60, "thorough": 600}
