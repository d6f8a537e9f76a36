"""C20: the compiled parts use memory correctly: no access out of bounds, no use after free, no undefined behaviour, no leak, no crash."""
from __future__ import annotations

import json
import os
import pathlib
import select
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from checks import c21
from lib import boot, dd, gen

PID = "C20"
RULE = (
    "random circuits with noise, and instructions spoiled as Python code can spoil them, run on bindings built with AddressSanitizer and "
    "UndefinedBehaviorSanitizer; histories of the decision-diagram package under the same sanitizers and under memcheck; distinct by the circuits or history"
)
FLAGS = ["-DNDEBUG", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
HERE = pathlib.Path(__file__).resolve().parent.parent
NOISY = ["rxy", "rz", "virtrz", "x", "z", "h", "s", "rh", "cx", "csum"]


def prepare(scratch, tier, seed):
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(3) as ex:
        a = ex.submit(boot.build_bindings, "-O1", FLAGS)
        b = ex.submit(dd.build, scratch, [*dd.SAN, "-DNDEBUG"])
        c = ex.submit(dd.build, scratch, [*dd.PLAIN, "-DNDEBUG"])
        return {"sanitized": str(a.result()), "exe": str(b.result()), "plain": str(c.result())}


class Driver:
    """A Python process with the sanitized bindings."""

    def __init__(self, ctx, leaks=False):
        def lib(name):
            return subprocess.run(["g++", f"-print-file-name={name}"], capture_output=True, text=True, check=True).stdout.strip()

        env = {
            **os.environ, "LD_PRELOAD": lib("libasan.so") + " " + lib("libstdc++.so.6"), "UBSAN_OPTIONS": "print_stacktrace=1",
            "ASAN_OPTIONS": f"detect_leaks={int(leaks)}:exitcode=77:allocator_may_return_null=1", "OPENBLAS_NUM_THREADS": "1",
        }
        if not leaks:  # Python's objects are watched too
            env["PYTHONMALLOC"] = "malloc"
        self.err = tempfile.TemporaryFile(dir=ctx.scratch)
        self.p = subprocess.Popen([sys.executable, str(HERE / "lib/sandrive.py"), ctx.shared["sanitized"], str(HERE)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True, env=env)

    def errors(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")

    def report(self):
        out = [x[:160] for x in self.errors().splitlines() if any(w in x for w in ("ERROR", "error:", "ssertion", "/repo/", "terminate"))]
        return "\n".join(out[:12]) or self.errors()[-600:]

    def __call__(self, case):
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return None
        if not select.select([self.p.stdout], [], [], 200)[0]:
            return "hang"
        r = self.p.stdout.readline()
        if not r:
            self.p.wait(60)
            return None
        kind, rest = r[0], r[2:].rstrip("\n").split("\t")
        return (kind, *[json.loads(x) for x in rest])

    def kill(self):
        self.p.kill()
        self.p.wait()


def circuit(rng, most=200):
    ds = gen.dims(rng, 5, 7, most, wide=False)
    spec = gen.spec(rng, ds, gen.MISIM, int(rng.integers(0, 20)), ctrl=0.3)
    noise = []
    for _ in range(int(rng.integers(0, 4))):
        mode = ["local", "all", "nonlocal", "control", "target", [int(x) for x in rng.integers(0, len(ds) + 1, int(rng.integers(1, 3)))]][int(rng.integers(6))]
        gates = [str(x) for x in rng.permutation(NOISY)[: int(rng.integers(1, 8))]]
        noise.append([float(rng.choice([0, 1, rng.random()])), float(rng.choice([0, 1, rng.random()])), gates, mode])
    return {"spec": spec, "noise": noise}


def answer(ctx, d, r, case):
    if r is None:
        ctx.fail("the bindings crash:\n" + d.report(), given=case)
    if r == "hang":
        ctx.fail("the bindings hang", given=case)
    if r[0] == "N":
        ctx.ev("not_built")
        return False
    if len(r) > 2:
        ctx.check(not r[2], "objects handed to the bindings are held or lost afterwards", objects=r[2], given=case)
    if r[0] == "E":
        ctx.ev("thrown")
        return False
    n = int(np.prod(case["spec"]["dims"]))
    if not case.get("spoil"):
        ctx.check(r[1][0] == n, "the state has the wrong size", got=r[1][0], want=n)
        ctx.check(r[1][2] and abs(r[1][1] - 1) < 1e-6, "the state is no state", norm=r[1][1], finite=r[1][2], given=case)
    ctx.check(r[1][3] == 1, "the result is held by somebody else", references=r[1][3])
    ctx.check(r[1][4] == 1, "the amplitudes are held by somebody else", references=r[1][4])
    ctx.ev("states")
    return True


def bindings(ctx, rng):
    d = Driver(ctx)
    try:
        for _ in range(30 if ctx.thorough else 16):
            case = circuit(rng)
            ctx.case(case, [gen.sig(case["spec"]), [(g, m) for _, _, g, m in case["noise"]]])
            answer(ctx, d, d(case), case)
            ctx.ev("circuits")
            ctx.ev("instructions", len(case["spec"]["ops"]))
            for _, _, gates, m in case["noise"]:
                for g in gates:
                    ctx.seen("noise", (g, m if isinstance(m, str) else "lines"))
        d.p.stdin.close()
        ctx.check(d.p.wait(100) == 0, "the process with the bindings ends badly:\n" + d.report())
    finally:
        d.kill()


def large(ctx, rng):
    """Some thousand different amplitudes: numbers and nodes fill more than the first blocks of memory, and the tables of results overflow."""
    d = Driver(ctx)
    try:
        for _ in range(6 if ctx.thorough else 3):
            while True:
                ds = [int(x) for x in rng.integers(2, 8, int(rng.integers(2, 14)))]
                if 2000 <= np.prod(ds) <= 6000:
                    break
            ops = gen.mixing(rng, ds) + [gen.op(rng, ds, ["csum", "cx"], ctrl=0.0) for _ in range(int(rng.integers(2, 7)))]
            ops += gen.spec(rng, ds, gen.MISIM, int(rng.integers(3, 12)), ctrl=0.0)["ops"]
            case = {"spec": {"dims": ds, "ops": ops}, "noise": []}
            ctx.case(case, gen.sig(case["spec"]))
            if answer(ctx, d, d(case), case):
                ctx.ev("large_states")
                ctx.mx("amplitudes", float(np.prod(ds)))
        d.p.stdin.close()
        ctx.check(d.p.wait(100) == 0, "the process with the bindings ends badly:\n" + d.report())
    finally:
        d.kill()


def blocks(ctx, rng):
    """A package with many matrices on wide lines: every store (numbers, temporary numbers, nodes, results) outgrows its first block."""
    ds = [[40], [33, 2], [2, 35], [12, 3], [7, 6]][int(rng.integers(5))]
    mon = dd.Mon(ctx.shared["exe"])

    def call(*words):
        try:
            return mon(*words)
        except dd.Died as e:
            ctx.fail(str(e), dims=ds, history=[x[:100] for x in mon.log[-6:]])

    try:
        call("pkg", len(ds), *ds)
        call("quiet", 1)
        call("zero", 0)
        keep, built = [], 0
        for i in range(1, 14 if max(ds) > 20 else 40):
            t = int(np.argmax(ds)) if rng.random() < 0.7 else int(rng.integers(len(ds)))
            words, _ = dd.matrix(rng, ds[t]) if rng.random() < 0.2 else haar(rng, ds[t])
            others = [q for q in range(len(ds)) if q != t and rng.random() < 0.3]
            call("gate", i, t, len(others), *[x for q in others for x in (q, int(rng.integers(ds[q])))], *words)
            keep.append(i)
            built += 1
            if len(keep) > 1:
                a, b = (int(x) for x in rng.permutation(keep)[:2])
                call(str(rng.choice(["mm", "addm"])), 100 + i, a, b)
                call("mv", i, 100 + i if rng.random() < 0.5 else a, int(rng.integers(0, 1)))
        call("all")
        for lost in range(int(rng.integers(0, 2))):
            call("pkg", len(ds), *ds)
            call("zero", 0)
        ctx.case({"dims": ds, "history": [x[:80] for x in mon.log]}, [ds, [x.split()[0] for x in mon.log], int(rng.integers(1 << 30))])
        ctx.ev("wide_packages")
        ctx.ev("wide_matrices", built)
        try:
            mon.close()
        except dd.Died as x:
            if "LeakSanitizer" in mon.errors() and "fatal" in mon.errors():
                return
            ctx.fail(str(x), dims=ds)
    finally:
        mon.kill()


def haar(rng, d):
    m = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    m /= np.abs(m).max()
    words = ["mat"]
    for x in m.reshape(-1):
        words += [float(x.real), float(x.imag)]
    return words, m


SPOILT = {
    "_params": [None, [], [0], [0, 1], [5, 6, 0.1, 0.1], [-1, 0, 0.2, 0.3], ["a"], "abc", 7, [1, 0, 0.3, 0.4], [0, 0, 0.3, 0.3], [300, 1, 0.3, 0.4],
                [0, 1, 300, 0.3], [2**40, 0, 0, 0.1], [0, 2**33, 0.1, 0.1], [7, 0.3], [-1, 0.3], [0, 1, -1, 0.4], [0, 8, 0, 0.3]],
    "_target_qudits": [None, [], 9, -1, [9, 9], [0], [0, 0], [0, 9], [-1, 0], [9, 0], "x", 127, 128, 300, 2**40, [0, 1, 2], [2, 0], [126, 127]],
    "_dimensions": [None, [], 2, 9, [2], [3, 3], [9, 9], "x", -1, 0, [0], 7],
    "dagger": [None, 1, "x"],
    "qasm_tag": [None, "", "zz", "cx", "csum", "rxy", "rz", "virtrz", "rh", "h", "s", "x", "z"],
    "_controls_data": [{"indices": [9], "ctrl_states": [0]}, {"indices": [-1], "ctrl_states": [0]}, {"indices": [0], "ctrl_states": []}, {"indices": [], "ctrl_states": [1]},
                       {"indices": [300], "ctrl_states": [300]}, {"indices": [0, 1, 2], "ctrl_states": [7]}, {"indices": [0, 0], "ctrl_states": [0, 1]}, 5, {"indices": 3}],
}


def hostile(ctx, rng):
    """Instructions that Python code changed into something that makes no sense."""
    d = Driver(ctx)
    try:
        for _ in range(40 if ctx.thorough else 24):
            case = circuit(rng, 60)
            k = len(case["spec"]["ops"])
            if not k:
                continue
            case["spoil"] = []
            for _ in range(int(rng.integers(1, 3))):
                attr = str(rng.choice(list(SPOILT)))
                v = SPOILT[attr][int(rng.integers(len(SPOILT[attr])))]
                i = int(rng.integers(k))
                case["spoil"].append([[i, attr], v])
                ctx.seen("spoilt", (case["spec"]["ops"][i]["g"], attr))
            ctx.case(case, [gen.sig(case["spec"]), case["spoil"]])
            answer(ctx, d, d(case), case)
            ctx.ev("hostile")
    finally:
        d.kill()


def leaks(ctx, rng):
    """Everything the bindings and the package allocate is freed again."""
    d = Driver(ctx, leaks=True)
    try:
        said = []
        for _ in range(12):
            case = {**circuit(rng), "repeat": 3}
            if rng.random() < 0.3:
                case["spec"]["ops"].append({"g": "ls", "t": [0, 1], "p": [0.3], "c": None, "dag": False} if len(case["spec"]["dims"]) > 1 else
                                           {"g": "noisex", "t": [0], "p": [0, 1], "c": None, "dag": False})
            said.append(case)
            answer(ctx, d, d(case), case)
        ctx.case({"circuits": said}, [gen.sig(c["spec"]) for c in said])
        d.p.stdin.close()
        d.p.wait(200)
        e = d.errors()
        if "LeakSanitizer has encountered a fatal error" in e or "LeakSanitizer does not work" in e:
            ctx.ev("leaks_not_checked")
            return
        for block in e.split("\n\n"):
            if "leak of" in block and ("bindings.cpp" in block or "/include/dd/" in block):
                ctx.fail("the bindings leak memory:\n" + "\n".join(x[:150] for x in block.splitlines()[:9]))
        ctx.ev("leak_searches")
        ctx.ev("leak_oracle_seen_working", int("SUMMARY: AddressSanitizer" in e))  # Python itself always leaves something behind
    finally:
        d.kill()


class Run(c21.Run):
    """A history of the package of which only memory matters."""

    def call(self, *words):
        try:
            r = self.mon(*words)
        except dd.Died as e:
            if "LeakSanitizer has encountered a fatal error" in str(e):
                raise
            self.ctx.fail(str(e), history=self.mon.log[-12:], dims=self.ds)
        self.mon.viol.clear()
        return np.zeros(2, complex) if isinstance(r, tuple) or r is None else r

    def judge(self, words, want, tol=0):
        self.ops.append(words[0])
        self.ctx.ev("operations")
        self.ctx.seen("operations", words[0])
        return self.call(*words)

    def count(self, v):
        self.call("count", v)


def play(ctx, rng, exe, steps, wrap=None, most=36):
    while True:
        ds = [int(x) for x in rng.integers(2, 8 if rng.random() < 0.3 else 5, int(rng.integers(1, 6)))]
        if np.prod(ds) <= most:
            break
    r = Run.__new__(Run)
    r.ctx, r.rng, r.ds, r.n, r.v, r.m, r.next, r.ops, r.counts = ctx, rng, ds, int(np.prod(ds)), {}, {}, 0, [], []
    r.mon = dd.Mon(exe, wrap)
    ctx.check = lambda ok, *a, **k: None  # answers are C21's business
    try:
        r.call("pkg", len(ds), *ds)
        for _ in range(steps):
            r.step()
            if rng.random() < 0.03:  # start over: the old package is destroyed
                r.call("pkg", len(ds), *ds)
                r.v, r.m = {}, {}
                ctx.ev("packages_destroyed")
            if rng.random() < 0.1:
                hostile_call(ctx, rng, r)
        r.call("all")
        r.call("tables")
        if steps >= 200:  # a table of numbers by itself: taken, given back, collected, cleared and filled again
            r.call("numbers", int(rng.integers(2**31)), int(rng.integers(1001, 1500)))
            ctx.ev("number_tables")
        ctx.case({"dims": ds, "history": r.mon.log[-40:]}, [ds, r.ops])
        try:
            e = r.mon.close()
        except dd.Died as x:
            e = str(x)
            if "LeakSanitizer" in e and "fatal" in e or "LeakSanitizer" in r.mon.errors() and "fatal" in r.mon.errors():
                ctx.ev("leaks_not_checked")
                return
            ctx.fail(e, history=r.mon.log[-12:])
        return
    finally:
        del ctx.check
        r.mon.kill()


def hostile_call(ctx, rng, r):
    """Requests the package has to refuse or survive."""
    n = len(r.ds)
    k = r.slot()
    t = int(rng.integers(6))
    if t == 0:
        r.call("lowgate", k, n + 1, int(rng.integers(n)), 0, *([0.5] * 200))
    elif t == 1:
        r.call("cex", k, 0, n + 3, 0, 0, 1, 0.3, 0)
    elif t == 2:
        r.call("gate", k, int(rng.integers(n)), 0, "r", 0.3, 0.3, int(rng.integers(9)), int(rng.integers(9)))
    elif t == 3:
        r.call("gate", k, int(rng.integers(n)), 0, "virtrz", 0.3, 0.3, int(rng.integers(9)), 0)
    elif t == 4:
        r.call("csum", k, n + 1, 0, 0)
    else:
        r.call("basis", k, *[int(x) for x in rng.integers(0, 3, n)])
    ctx.ev("hostile_calls")


def package(ctx, rng):
    play(ctx, rng, ctx.shared["exe"], int(rng.integers(20, 60)))
    ctx.ev("histories")


def packages(ctx, rng):
    """Long histories: the tables are filled, searched and cleared."""
    play(ctx, rng, ctx.shared["exe"], 600 if ctx.thorough else 200)
    ctx.ev("histories")


def memcheck(ctx, rng):
    """Values that were never set decide nothing (valgrind)."""
    if not shutil.which("valgrind"):
        ctx.ev("memchecked")
        return
    play(ctx, rng, ctx.shared["plain"], 40 if ctx.thorough else 25, ["valgrind", "-q", "--error-exitcode=78", "--exit-on-first-error=yes", "--leak-check=no"], 24)
    ctx.ev("memchecked")


KINDS = {
    "bindings": {"fn": bindings, "quick": 20, "thorough": 250},
    "large": {"fn": large, "quick": 4, "thorough": 60},
    "blocks": {"fn": blocks, "quick": 10, "thorough": 200},
    "hostile": {"fn": hostile, "quick": 16, "thorough": 160},
    "leaks": {"fn": leaks, "quick": 2, "thorough": 24},
    "memcheck": {"fn": memcheck, "quick": 4, "thorough": 100},
    "packages": {"fn": packages, "quick": 10, "thorough": 100},
    "package": {"fn": package, "quick": 60, "thorough": 1500},
}
PROBES: list = []
REQUIRED = {"circuits": 100, "states": 80, "hostile": 80, "thrown": 20, "histories": 20, "operations": 400, "#operations": 12, "#noise": 20, "#spoilt": 20, "memchecked": 1,
            "hostile_calls": 10, "large_states": 4, "wide_packages": 5, "wide_matrices": 60, "packages_destroyed": 5, "number_tables": 5}
ASSUMPTIONS = [
    "the sanitizers and valgrind see every access of the executions they watch; libstdc++ itself is not instrumented",
    "leaks are attributed by a frame of the bindings or the package in the allocation's stack; where the sandbox forbids the leak search the evidence counts leaks_not_checked",
    "private fields of circuits are only spoiled on instructions: a circuit whose own number of lines was overwritten is outside the property",
]
NEEDS_BINDINGS = False
