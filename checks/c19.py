"""C19: a circuit is what was done to it, and stays so while other circuits and the caller's lists change."""
from __future__ import annotations

import re

import numpy as np

from lib import gen, ref, sut
from lib.harness import Skip

PID = "C19"
RULE = (
    "random history of registers, gates, replacements, copies, resets, QASM and queries over several circuits at once; distinct by the "
    "sequence of operations with the kinds of gates; after each step every circuit is compared with a plain-data model"
)
SIZE = 96
PLAIN = [k for k in gen.ALL if not k.startswith("cu")]


class Model:
    def __init__(self):
        self.regs, self.cregs, self.gates, self.maps = [], [], [], None

    @property
    def dims(self):
        return [d for _, ds in self.regs for d in ds]

    def copy(self):
        m = Model()
        m.regs, m.cregs, m.gates = [(n, list(ds)) for n, ds in self.regs], list(self.cregs), list(self.gates)
        m.maps = None if self.maps is None else [list(x) for x in self.maps]
        return m


def add(circ, o):
    """Like sut.add, but every list and array handed in is spoilt afterwards."""
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData

    t, p, c = o["t"], o.get("p"), o.get("c")
    args = [t[0] if o["g"] in sut.ref_single else list(t)]
    if o["g"].startswith("cu"):
        args.append(ref.haar(int(np.prod([circ.dimensions[q] for q in t])), o["u"]))
    elif p is not None:
        args.append(list(p) if isinstance(p, (list, tuple)) else p)
    cd = ControlData(list(c[0]), list(c[1])) if c else None
    if cd and not o.get("late"):
        args.append(cd)
    gate = getattr(circ, o["g"])(*args)
    if cd and o.get("late"):
        gate.control(list(c[0]), list(c[1]))
    if o.get("dag"):
        gate.dag()
    for a in [*args, *([cd.indices, cd.ctrl_states] if cd else [])]:
        if isinstance(a, np.ndarray):
            a[:] = 0
        elif isinstance(a, list):
            a.reverse()
            a.append(97)
    return gate


def judge(ctx, circ, m, deep, what, log):
    ds = m.dims
    w = {"after": what, "log": log}
    ctx.check(list(circ.dimensions) == ds and circ.num_qudits == len(ds), "the qudits of a circuit are not those appended", got=circ.dimensions, want=ds, **w)
    ctx.check(len(circ.instructions) == len(m.gates) == circ.number_gates, "the number of gates is wrong",
              counted=circ.number_gates, there=len(circ.instructions), want=len(m.gates), **w)
    names = [(n, i) for n, r in m.regs for i in range(len(r))]
    ctx.check(dict(circ.sitemap) == {k: (i, ds[i]) for i, k in enumerate(names)}, "the lines of the registers are wrong", got=circ.sitemap, **w)
    ctx.check(dict(circ.inverse_sitemap) == dict(enumerate(names)), "the names of the lines are wrong", got=circ.inverse_sitemap, **w)
    ctx.check([(r.label, list(r.dimensions), r.size) for r in circ.quantum_registers] == [(n, r, len(r)) for n, r in m.regs], "the registers are wrong", **w)
    cl = [(n, i) for n, s in m.cregs for i in range(s)]
    ctx.check(circ.num_cl == len(cl), "the number of classic lines is wrong", got=circ.num_cl, want=len(cl), **w)
    ctx.check(dict(circ.classic_site_map) == {k: (i,) for i, k in enumerate(cl)} and dict(circ.cl_inverse_sitemap) == dict(enumerate(cl)),
              "the classic lines are wrong", got=circ.classic_site_map, **w)
    for regs, want in ((circ.quantum_registers, [len(r) for _, r in m.regs]), (circ.classic_registers, [s for _, s in m.cregs])):
        pos = 0
        for reg, size in zip(regs, want):
            ctx.check([reg[i] for i in range(size)] == list(range(pos, pos + size)) == reg[0:size], "a register gives other lines", reg=reg.label, **w)
            pos += size
    ctx.check(circ.mappings == m.maps, "the mappings of a circuit are not those set", got=circ.mappings, want=m.maps, **w)
    for g, o in zip(circ.instructions, m.gates):
        lines = ref.lines_of(o)
        ctx.check(sorted(g.reference_lines) == sorted(lines), "a gate moved to other lines", op=o, got=g.reference_lines, **w)
        ctx.check(list(g.get_control_lines) == list(o["c"][0] if o.get("c") else []), "the controls of a gate changed", op=o, **w)
        if deep:
            e = ref.dist(np.asarray(g.to_matrix(2)), ref.embed(o, ds, list(range(len(ds)))))
            ctx.check(e < 1e-9, "a gate became another one", op=o, dist=e, **w)
            ctx.ev("gates compared")
    if deep and ds:
        text = [x.strip() for x in circ.to_qasm().split("\n") if x.strip()]
        rows = [x for x in text if not re.match(r"DITQASM|qreg|creg|measure", x)]
        ctx.check(len(rows) == len(m.gates), "the text of a circuit has other gates", text=text, **w)
        for o, row in zip(m.gates, rows):
            want = [f"{names[q][0]}[{names[q][1]}]" for q in [*o["t"], *(o["c"][0] if o.get("c") else [])]]
            ctx.check(re.findall(r"[A-Za-z]\w*\[\d+\]", row.split(") ")[-1] if "(" in row else row.split(" ", 1)[1]) == want,
                      "the text of a gate names other lines", row=row, want=want, **w)
    ctx.ev("circuits compared")


def history(ctx, rng):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components import ClassicRegister, QuantumRegister

    world = [(QuantumCircuit(), Model())]
    log = []
    fresh = [0]

    def name():
        fresh[0] += 1
        return str(rng.choice(["q", "anc", "r_", "X", "field", "ctl", "q1", "meas"])) + str(fresh[0])

    def op(m, kinds=gen.ALL):
        ds = m.dims
        ks = [k for k in kinds if len(ds) > 1 or k not in gen.MULTI]
        for _ in range(50):
            o = gen.op(rng, ds, ks, ctrl=0.4)
            if o["g"] != "cu_multi" or len(o["t"]) < 4:
                return o
        raise Skip

    steps = int(rng.integers(8, 26))
    for _ in range(steps):
        k = int(rng.integers(len(world)))
        circ, m = world[k]
        ds = m.dims
        kind = str(rng.choice(["reg", "creg", "gate", "gate", "gate", "gate", "gellmann", "replace", "set", "adopt", "map", "reset", "copy",
                               "copy", "qasm", "look", "new", "clear"],
                              p=np.array([5, 2, 8, 8, 8, 8, 1, 5, 3, 5, 2, 1, 3, 3, 3, 4, 2, 1]) / 72))
        if kind == "reg":
            room = [d for d in range(2, 7) if np.prod([*ds, d]) <= SIZE]
            if not room or m.gates:
                # lines can be added behind gates, too
                if not room or rng.random() < 0.6:
                    continue
            r = [int(rng.choice(room))]
            while rng.random() < 0.5 and np.prod([*ds, *r, 2]) <= SIZE:
                r.append(int(rng.choice([d for d in range(2, 7) if np.prod([*ds, *r, d]) <= SIZE])))
            n = name()
            given = list(r)
            plain = all(d == 2 for d in r) and rng.random() < 0.5
            circ.append(QuantumRegister(n, len(r)) if plain else QuantumRegister(n, len(r), given))
            given.append(99)
            given[0] = 98
            m.regs.append((n, r))
        elif kind == "creg":
            n, s = name(), int(rng.integers(1, 5))
            circ.append_classic(ClassicRegister(n, s))
            m.cregs.append((n, s))
        elif kind == "gate":
            if not ds:
                continue
            o = op(m)
            gate = add(circ, o)
            m.gates.append(o)
            ctx.check(circ.instructions[-1] is gate, "the gate returned is not the one added", op=o)
            ctx.seen("gate", o["g"])
            kind = o["g"]
        elif kind == "gellmann":
            if not ds:
                continue
            circ.gellmann(int(rng.integers(len(ds))), [0, 1, "s"])
        elif kind == "replace":
            if not m.gates:
                continue
            # by other gates of the circuit, by new ones, by none
            i = int(rng.integers(len(m.gates)))
            seq, ops = [], []
            for _ in range(int(rng.integers(0, 4))):
                if rng.random() < 0.5:
                    j = int(rng.integers(len(m.gates)))
                    seq.append(circ.instructions[j])
                    ops.append(m.gates[j])
                else:
                    o = op(m)
                    tmp = QuantumCircuit(len(ds), list(ds), 0)
                    seq.append(sut.add(tmp, o))
                    ops.append(o)
            circ.replace_gate(i, tuple(seq) if rng.random() < 0.3 else seq)
            m.gates[i : i + 1] = ops
            seq.clear()
            ctx.ev("replaced")
        elif kind == "set":
            order = gen.ints(rng.permutation(len(m.gates)))[: int(rng.integers(0, len(m.gates) + 1))]
            seq = [circ.instructions[i] for i in order]
            back = circ.set_instructions(seq)
            ctx.check(back is circ, "set_instructions returns another circuit")
            seq.clear()
            m.gates = [m.gates[i] for i in order]
            ctx.ev("set")
        elif kind == "adopt":
            # the gates of another circuit of the same qudits
            same = [x for x in world if x[1].dims == ds and x[0] is not circ and x[1].gates]
            if not same:
                continue
            c2, m2 = same[int(rng.integers(len(same)))]
            circ.set_instructions(c2.instructions)
            m.gates = list(m2.gates)
            ctx.ev("adopted")
        elif kind == "map":
            maps = [gen.ints(rng.permutation(d)) for d in ds]
            circ.set_mapping([list(x) for x in maps])
            m.maps = maps
        elif kind == "reset":
            circ.reset()
            world[k] = (circ, Model())
            ctx.ev("reset")
        elif kind == "copy":
            if len(world) > 4:
                continue
            world.append((circ.copy(), m.copy()))
            ctx.ev("copied")
        elif kind == "new":
            if len(world) > 4:
                continue
            r = gen.dims(rng, 4, 5, SIZE)
            given = list(r)
            m2 = Model()
            if rng.random() < 0.2:
                world.append((QuantumCircuit(len(r), None, 0), m2))
                m2.regs = [("q", [2] * len(r))]
            else:
                world.append((QuantumCircuit(len(r), given, 0) if rng.random() < 0.5 else QuantumCircuit(QuantumRegister("q", len(r), given)), m2))
                m2.regs = [("q", r)]
            given.reverse()
            given[0] = 77
        elif kind == "qasm":
            src = [x for x in world if x[1].dims and not any(o["g"].startswith("cu") or o.get("dag") for o in x[1].gates)]
            if not src:
                continue
            c2, m2 = src[int(rng.integers(len(src)))]
            new = m2.copy()
            circ.from_qasm(c2.to_qasm())
            new.cregs, new.maps = [("meas", len(new.dims))], None
            world[k] = (circ, new)
            ctx.ev("read from text")
        elif kind == "look":
            if not ds:
                continue
            circ.to_qasm()
            assert circ.gate_set
            s = np.asarray(circ.simulate()).ravel()
            want = ref.state({"dims": ds, "ops": m.gates})
            ctx.check(ref.dist(s, want) < 1e-8, "the circuit computes something else", log=log)
            ctx.ev("simulated")
        elif kind == "clear":
            circ.set_instructions([])
            m.gates = []
        log.append((k, kind))
        for j, (c2, m2) in enumerate(world):
            judge(ctx, c2, m2, deep=rng.random() < 0.15, what=(kind, k, j), log=log)
    for j, (c2, m2) in enumerate(world):
        judge(ctx, c2, m2, True, ("end", j), log)
    ctx.case(log, log)
    ctx.ev("steps", len(log))
    ctx.mx("circuits at once", len(world))


def twice(ctx):
    """Names of registers are unique."""
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components import ClassicRegister, QuantumRegister

    c = QuantumCircuit(QuantumRegister("a", 2, [3, 4]))
    for f, r in ((c.append, QuantumRegister("a", 1, [5])), (c.append_classic, ClassicRegister("m", 2)), (c.append_classic, ClassicRegister("m", 1))):
        try:
            f(r)
        except Exception:  # noqa: BLE001
            ctx.ev("refused")
    ctx.check(len(c.sitemap) == c.num_qudits == len(c.dimensions) and len(c.classic_site_map) == c.num_cl, "registers of one name share lines",
              lines=c.sitemap, dims=c.dimensions)


def kept(ctx):
    """A compiled circuit outlives the one it came from, and is saved with its matrices."""
    import pathlib
    import tempfile

    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.simulation import MQTQuditProvider

    u = ref.haar(8, 5)
    c = QuantumCircuit(3, [2, 2, 2], 0)
    c.h(0)
    c.cu_multi([2, 0, 1], u.copy())
    c.csum([0, 1])
    want = np.asarray(c.simulate()).ravel()
    n = QuditCompiler().compile(MQTQuditProvider().get_backend("faketraps2trits"), c, ["LogLocQRPass"])
    with tempfile.TemporaryDirectory() as d:
        back = QuantumCircuit()
        # (the compiled gates are daggered, which the text does not say, see C07)
        same = QuantumCircuit(3, [2, 2, 2], 0).set_instructions(c.instructions)
        back.load_from_file(same.save_to_file("a", d))
        ctx.check(abs(abs(np.vdot(np.asarray(back.simulate()).ravel(), want)) - 1) < 1e-7, "gates taken over from another circuit change when they are saved")
        ctx.check(len(list(pathlib.Path(d).iterdir())) == 2, "other files appear")
    c.from_qasm("DITQASM 2.0; qreg z [1][5]; h z[0];")
    got = np.asarray(n.simulate()).ravel()
    ctx.check(abs(abs(np.vdot(got, want)) - 1) < 1e-7 and "csum q[0], q[1];" in n.to_qasm(), "a compiled circuit changes with the one it came from")
    ctx.case("kept", "kept")


KINDS = {"history": {"fn": history, "quick": 1500, "thorough": 30000}}
PROBES = [twice, kept]
REQUIRED = {"circuits compared": 5000, "gates compared": 5000, "copied": 50, "reset": 10, "replaced": 80, "adopted": 10, "set": 30,
            "read from text": 30, "simulated": 60, "#gate": 15, "refused": 2}
ASSUMPTIONS = ["circuits of up to 96 basis states", "a register object is appended to one circuit only"]
