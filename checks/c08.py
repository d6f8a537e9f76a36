"""C08: an accepted QASM program means what it says; a program that says nothing sensible is refused."""
from __future__ import annotations

import numpy as np

from lib import gen, ref, sut

PID = "C08"
RULE = (
    "random program text: registers with and without dimensions, several per program, gates with literal and symbolic angles, "
    "controls, random spacing, comments, line breaks, several statements per line, ignored statements; distinct by text; the "
    "meaning is computed from the generated structure, never from the text"
)
TOL = 1e-8
TAGS = sut.TAGS
NAMES = ["q", "field", "matter", "r2", "anc_0", "Xreg", "ctl_reg", "measured", "z", "rz", "barrier1", "pi0"]
EXPR = [("pi", np.pi), ("pi/2", np.pi / 2), ("-pi/4", -np.pi / 4), ("2*pi/3", 2 * np.pi / 3), ("-pi", -np.pi), ("0.5", 0.5),
        ("1e-3", 1e-3), ("+0.25", 0.25), ("3*pi/2 - 0.1", 1.5 * np.pi - 0.1), ("1.5e0", 1.5), ("pi*0.75", 0.75 * np.pi),
        ("0.0", 0.0), ("-2.0", -2.0), (".75", 0.75), ("2.", 2.0), ("2e-05", 2e-5), ("pi - 3*0.5", np.pi - 1.5)]


def sp(rng, must=False) -> str:
    k = int(rng.integers(4))
    s = ["", " ", "  ", "\t"][k]
    return s or (" " if must else "")


def junk(rng, inside) -> str:
    words = ["x q[0];", "end", "h q[1]", "DITQASM", "foo(1,2)", "don't", "* / *", "ctl", ";", "measure", "\\", "\"a\""]
    return " ".join(str(rng.choice(words)) for _ in range(int(rng.integers(0, 4)))).replace("*/" if inside else "\n", "")


def glue(rng) -> str:
    k = int(rng.integers(10))
    if k == 0:
        return "// " + junk(rng, False) + "\n"
    if k == 1:
        return " /* " + junk(rng, True) + " */ "
    if k == 2:
        return "\n/* " + junk(rng, True) + "\n  " + junk(rng, True) + "\n*/\n"
    if k == 3:
        return " // /* " + junk(rng, False) + "\n"
    if k == 4:
        return " "
    if k == 5:
        return "\n\n   \t\n"
    return "\n"


def program(rng):
    """A structure (spec) and a text that says the same."""
    ds = gen.dims(rng, 5, 6, 150)
    if rng.random() < 0.2:
        ds = [2] * len(ds)
    order = rng.permutation(len(NAMES))
    regs, left, pos = [], len(ds), 0
    while left:
        k = int(rng.integers(1, left + 1))
        regs.append((NAMES[order[len(regs)]], k, ds[pos : pos + k]))
        left, pos = left - k, pos + k
    where = {}
    for name, k, _ in regs:
        for i in range(k):
            where[len(where)] = f"{name}[{i}]"
    ops = gen.spec(rng, ds, [k for k in TAGS if k != "pm" or True], int(rng.integers(0, 9)), ctrl=0.35, dag=0.0)["ops"]
    out = [("DITQASM 2.0;" if rng.random() < 0.8 else "DITQASM  2.0;") if rng.random() < 0.9 else ""]
    if rng.random() < 0.3:
        out.append('include "qelib1.inc";')
    decl = []
    for name, k, d in regs:
        size = f"[{k}]" if rng.random() < 0.7 else f"[ {k} ]"
        if all(x == 2 for x in d) and rng.random() < 0.5:
            decl.append(f"qreg {name} {size};")
        else:
            decl.append(f"qreg {name} {size}{sp(rng)}[{(',' + sp(rng)).join(map(str, d))}];")
    creg = f"creg meas[{len(ds)}];" if rng.random() < 0.5 else f"creg c {sp(rng)}[{len(ds)}]{sp(rng)};"
    if rng.random() < 0.3:
        # a register declared when gates on the earlier ones have already been given
        decl.insert(int(rng.integers(len(decl) + 1)), creg)
    elif rng.random() < 0.8:
        decl.append(creg)
    out += decl
    for o in ops:
        p = o.get("p")
        if o["g"] in {"r", "rz", "virtrz", "cx", "ls", "ms"} and p is not None:
            p = list(p)
            for j in range({"r": 2, "rz": 2, "virtrz": 1, "cx": 3, "ls": 0, "ms": 0}[o["g"]], len(p)):
                if rng.random() < 0.5:
                    e, v = EXPR[int(rng.integers(len(EXPR)))]
                    if o["g"] in {"cx", "ls", "ms"} and v < 0:
                        e, v = EXPR[0]
                    p[j] = (e, v)
            o["p"] = [x[1] if isinstance(x, tuple) else x for x in p]
        text = TAGS[o["g"]] + sp(rng, p is None)
        if p is not None:
            plist = p if isinstance(p, list) else [p]
            text += sp(rng) + "(" + ("," + sp(rng)).join(sp(rng) + (x[0] if isinstance(x, tuple) else repr(x)) for x in plist) + ")" + sp(rng)
        text += ("," + sp(rng)).join(where[q] for q in o["t"])
        if o.get("c"):
            text += " ctl " + " ".join(where[q] for q in o["c"][0]) + sp(rng) + "[" + ("," + sp(rng)).join(map(str, o["c"][1])) + "]"
        out.append(text + sp(rng) + ";")
        if rng.random() < 0.08:
            out.append(f"barrier {where[int(rng.integers(len(ds)))]};")
    for q in where:
        if rng.random() < 0.3:
            out.append(f"measure {where[q]} -> c[{q}];")
    text = "".join(s + glue(rng) for s in out if s)
    return {"dims": ds, "ops": ops}, text, regs


def meaning(ctx, rng):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    spec, text, regs = program(rng)
    ctx.case({"text": text, "spec": spec}, text)
    c = QuantumCircuit()
    c.from_qasm(text)
    ctx.check(list(c.dimensions) == spec["dims"], "wrong dimensions", text=text, got=c.dimensions, want=spec["dims"])
    ctx.check([(r.label, r.size, list(r.dimensions)) for r in c.quantum_registers] == [(n, k, list(d)) for n, k, d in regs],
              "wrong registers", text=text)
    ctx.check(len(c.instructions) == len(spec["ops"]), f"{len(c.instructions)} gates instead of {len(spec['ops'])}", text=text)
    u = np.eye(int(np.prod(spec["dims"])), dtype=complex)
    for o, g in zip(spec["ops"], c.instructions):
        m = np.asarray(g.to_matrix(2))
        e = ref.dist(m, ref.embed(o, spec["dims"], list(range(len(spec["dims"])))))
        ctx.check(e < TOL, f"gate {o['g']} is off by {e:.3g}", text=text, op=o)
        u = m @ u
        ctx.seen("kind", o["g"])
        ctx.ev("gates")
        if o.get("c"):
            ctx.ev("controlled")
    s = np.asarray(c.simulate()).ravel()
    ctx.check(ref.dist(s, ref.state(spec)) < 1e-7, "simulating the program gives another state", text=text)
    if rng.random() < 0.1:
        from mqt.qudits.quantum_circuit.qasm import QASM

        f = ctx.scratch / "program.qasm"
        f.write_text(text)
        a, b = QASM().parse_ditqasm2_file(str(f)), QASM().parse_ditqasm2_str(text)
        ctx.check(repr([a["sitemap"], a["sitemap_classic"], a["n_gates"], [(i["name"], i["params"], i["qudits"]) for i in a["instructions"]]])
                  == repr([b["sitemap"], b["sitemap_classic"], b["n_gates"], [(i["name"], i["params"], i["qudits"]) for i in b["instructions"]]])
                  and len(a["instructions"]) == len(spec["ops"]) and a["circuits_size"] == len(spec["dims"]), "the file is read as another program", text=text)
        ctx.ev("files")
    ctx.ev("programs")
    ctx.ev("comments", text.count("/*") + text.count("//"))
    ctx.ev("multi_register", len(regs) > 1)


def wide_program(rng):
    """Many lines, large dimensions: indices and levels of several digits, compared gate by gate."""
    n = int(rng.integers(9, 30))
    ds = [int(rng.integers(2, 15)) if rng.random() < 0.7 else int(rng.integers(10, 27)) for _ in range(n)]
    order = rng.permutation(len(NAMES))
    regs, left, pos = [], n, 0
    while left:
        k = min(left, int(rng.choice([left, int(rng.integers(1, left + 1))])))
        regs.append((NAMES[order[len(regs)]], k, ds[pos : pos + k]))
        left, pos = left - k, pos + k
    where = [f"{name}[{i}]" for name, k, _ in regs for i in range(k)]
    lines = ["DITQASM 2.0;"] + [f"qreg {name} [{k}][{','.join(map(str, d))}];" for name, k, d in regs] + [f"creg meas[{n}];"]
    ops = gen.spec(rng, ds, list(TAGS), int(rng.integers(4, 16)), ctrl=0.5, dag=0.0, max_ctrl=n)["ops"]
    for o in ops:
        p = o.get("p")
        plist = "" if p is None else " (" + ", ".join(map(repr, p if isinstance(p, list) else [p])) + ")"
        c = "" if not o.get("c") else " ctl " + " ".join(where[q] for q in o["c"][0]) + " [" + ", ".join(map(str, o["c"][1])) + "]"
        lines.append(f"{TAGS[o['g']]}{plist} {', '.join(where[q] for q in o['t'])}{c};")
    return {"dims": ds, "ops": ops}, "\n".join(lines) + "\n", regs


def wide(ctx, rng):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    spec, text, regs = wide_program(rng)
    ctx.case({"text": text, "spec": spec}, text)
    c = QuantumCircuit()
    c.from_qasm(text)
    ctx.check(list(c.dimensions) == spec["dims"], "wrong dimensions", text=text, got=c.dimensions, want=spec["dims"])
    ctx.check([(r.label, r.size, list(r.dimensions)) for r in c.quantum_registers] == [(n, k, list(d)) for n, k, d in regs],
              "wrong registers", text=text)
    ctx.check(len(c.instructions) == len(spec["ops"]), f"{len(c.instructions)} gates instead of {len(spec['ops'])}", text=text)
    for o, g in zip(spec["ops"], c.instructions):
        sut.attributes(ctx, o, g, spec["dims"], text=text)
        ctx.seen("wide kind", o["g"])
        ctx.ev("two-digit lines", any(q > 9 for q in ref.lines_of(o)))
        ctx.ev("two-digit levels", bool(o.get("c")) and any(q > 9 for q in o["c"][1]))
    ctx.ev("wide programs")


def refused(ctx, rng):
    """One fault makes the whole program wrong: it must not be read as if the fault were not there."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    ds = [3, 2, 4]
    good = ["rxy (0, 2, pi/2, 0.3) q[0];", "h q[1];", "csum q[0], w[0];", "x q[1] ctl q[0] [2];", "virtrz (1, 0.4) w[0];"]
    bad = [
        ("unknown gate", ["foo q[0];", "xx q[0];", "ccx q[0], q[1];", "u3 (1.0, 2.0, 3.0) q[0];", "X q[0];", "gate q[0];", "cz q[0], q[1];",
                          "hq[0];", "csumq[0], w[0];", "measured q[0];", "barrierh w[0];", "measurex q[1];", "barriers;", "xw[0] ctl q[0] [1];"]),
        ("undeclared register", ["x nope[0];", "csum q[0], nope[0];", "x q[0] ctl nope[0] [1];", "x Q[0];"]),
        ("index out of range", ["x q[2];", "csum q[0], w[1];", "x q[0] ctl q[7] [1];", "h w[3];"]),
        ("level out of range", ["rxy (0, 3, 0.1, 0.2) q[0];", "rz (0, 2, 0.4) q[1];", "virtrz (4, 0.1) w[0];", "x q[0] ctl q[1] [2];",
                                "rh (1, 3) q[0];", "pm (0, 1, 3) q[0];", "noisex (0, 2) q[1];", "x q[1] ctl q[0] w[0] [1, 4];"]),
        ("control on the target", ["x q[0] ctl q[0] [1];", "h w[0] ctl q[1] w[0] [1, 1];"]),
        ("missing semicolon", ["x q[0]", "h q[1] csum q[0], w[0];", "rxy (0, 1, 0.1, 0.2) q[0]"]),
        ("condition", ["if (c==1) x q[0];", "if(c[0]==1) x q[0];"]),
        ("definition", ["gate_matrix foo a { x a; }"]),
        ("words around a gate", ["foo bar x q[0];", "x q[0] please;", "2 x q[0];", "x q[0] ctl;", "x q[0] ctl q[1];"]),
        ("unfinished comment", ["/* x q[0];", "h q[1]; /* to do"]),
        ("no permutation", ["pm (0, 0, 1) q[0];", "pm (0, 1) q[0];"]),
        ("equal levels", ["rxy (1, 1, 0.1, 0.2) q[0];", "rz (2, 2, 0.4) q[0];"]),
        ("parameters", ["rxy (0, 1) q[0];", "rz (0) q[0];", "virtrz (1) w[0];", "rxy q[0];", "rz (0, 1, foo) q[0];", "rxy (0, 1, , 0.2) q[0];",
                        "rxy (0, 1, 0.1, 1/0) q[0];", "rz (0, 1, 0.1.2) q[0];", "rz (0, 1, 2pi) q[0];", "rxy (0, 1, pi2, 0.1) q[0];",
                        "virtrz (1, 3pi/4) w[0];", "rz (0, 1, pipi) q[0];"]),
        ("operands", ["csum q[0];", "x;", "h ;", "csum q[0], q[0];", "cx (0, 1, 1, 0.1) q[1], q[1];"]),
        ("declaration", ["qreg [2][2,2];", "qreg a b [2][2,2];", "qreg a [2][2,2,2];", "qreg a [3][2,2];", "qreg q [1][5];", "qreg w [2];", "creg c[2];",
                         "qreg a [1][0];", "qreg a [2][0,2];", "qreg a [-1];", "qreg a [2][-2,2];", "creg d[-1];"]),
        ("levels and controls", ["x q[0] ctl q[1] [1, 1];", "x q[0] ctl q[1] w[0] [1];", "x q[0] ctl q[1] q[1] [0, 1];"]),
    ]
    name, choices = bad[int(rng.integers(len(bad)))]
    fault = str(rng.choice(choices))
    lines = [good[i] for i in rng.permutation(len(good))[: int(rng.integers(0, 5))]]
    lines.insert(int(rng.integers(len(lines) + 1)) if name not in {"missing semicolon", "unfinished comment"} else len(lines), fault)
    text = "DITQASM 2.0;\nqreg q [2][3,2];\nqreg w [1][4];\ncreg c[3];\n" + "\n".join(lines) + "\n"
    ctx.case({"fault": name, "text": text}, [fault, lines.index(fault), len(lines)])
    c = QuantumCircuit()
    try:
        c.from_qasm(text)
    except Exception as e:  # noqa: BLE001
        ctx.check(not isinstance(e, (RecursionError, MemoryError)), f"{name}: {type(e).__name__}", text=text)
        ctx.seen("fault", name)
        ctx.ev("refused")
        ctx.check(True, "refused")
        del ds
        return
    ctx.fail(f"a program with a fault ({name}: {fault}) is accepted", text=text, read=[g.qasm_tag for g in c.instructions])


KINDS = {
    "meaning": {"fn": meaning, "quick": 3000, "thorough": 60000},
    "wide": {"fn": wide, "quick": 400, "thorough": 8000},
    "refused": {"fn": refused, "quick": 1200, "thorough": 8000},
}
REQUIRED = {"programs": 600, "gates": 2000, "controlled": 200, "comments": 600, "multi_register": 200, "#kind": 15, "refused": 300, "#fault": 14, "files": 50,
            "wide programs": 80, "two-digit lines": 100, "small matrices": 200, "two-digit levels": 60, "#wide kind": 12}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "the definitions written in lib/ref.py"]
BUDGET = {"quick": 60, "thorough": 600}
