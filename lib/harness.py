"""Runs the scenarios of one check in worker processes, collects what the monitors saw, and gives the verdict.

Exit codes: 0 held on everything explored, 1 violated (with a VIOLATION line), 2 error of the check, 3 inconclusive.
"""
from __future__ import annotations

import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import pickle
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

import numpy as np

VERIF = pathlib.Path(__file__).resolve().parent.parent
HANG_CPU_S = 240.0


class Violated(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property (for example the tree rejects it, as it may)."""


def jsonable(x):  # noqa: ANN001, ANN201
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Ctx:
    def __init__(self, pid: str, tier: str, seed: int, scratch: pathlib.Path, shared: dict) -> None:
        self.pid, self.tier, self.seed, self.scratch, self.shared = pid, tier, seed, scratch, shared
        self.events: Counter = Counter()
        self.states: dict[str, set] = {}
        self.known_seen: Counter = Counter()
        self.desc: object = None
        self.sigs: set = set()
        self.maxima: dict[str, float] = {}
        self.thorough = tier == "thorough"

    def case(self, desc, sig=None, nontrivial: bool = True) -> None:  # noqa: ANN001
        """Describe the current case; `sig` identifies it for counting distinct non-trivial cases."""
        self.desc = desc
        if nontrivial:
            s = json.dumps(jsonable(desc if sig is None else sig), sort_keys=True)
            self.sigs.add(hashlib.md5(s.encode()).hexdigest()[:12])

    def ev(self, name: str, n: int = 1) -> None:
        self.events[name] += n

    def seen(self, group: str, value) -> None:  # noqa: ANN001
        self.states.setdefault(group, set()).add(str(value))

    def mx(self, name: str, v: float) -> None:
        self.maxima[name] = max(self.maxima.get(name, -1e300), float(v))

    def check(self, cond, what: str, **info) -> None:  # noqa: ANN001
        self.events["oracle_evaluations"] += 1
        if not cond:
            raise Violated(what + (" " + json.dumps(jsonable(info))[:1500] if info else ""))

    def fail(self, what: str, **info) -> None:
        # not by way of check, which a case may set aside
        self.events["oracle_evaluations"] += 1
        raise Violated(what + (" " + json.dumps(jsonable(info))[:1500] if info else ""))

    def known(self, key: str) -> None:
        """A case shows a defect listed in known_findings.txt; unlisted keys are violations."""
        if key not in known_findings(self.pid):
            msg = f"defect '{key}' is not a listed finding"
            raise Violated(msg)
        self.known_seen[key] += 1

    @contextlib.contextmanager
    def quiet(self):
        """Swallow what the code under test prints (python and C++ side)."""
        sys.stdout.flush()
        save = [os.dup(1), os.dup(2)]
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        os.close(null)
        try:
            yield
        finally:
            sys.stdout.flush()
            for i, fd in enumerate(save):
                os.dup2(fd, i + 1)
                os.close(fd)


def known_findings(pid: str) -> dict[str, str]:
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def case_rng(seed: int, pid: str, kind: str, i: int) -> np.random.Generator:
    h = hashlib.sha256(f"{seed}/{pid}/{kind}/{i}".encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def seed_globals(seed: int, pid: str, kind: str, i: int) -> None:
    import random

    h = int.from_bytes(hashlib.sha256(f"g{seed}/{pid}/{kind}/{i}".encode()).digest()[:4], "little")
    random.seed(h)
    np.random.seed(h)  # noqa: NPY002


def from_repo(tb) -> bool:  # noqa: ANN001
    return any("/repo/" in f.filename for f in traceback.extract_tb(tb))


def run_case(ctx: Ctx, mod, kind: str, i: int) -> dict | None:  # noqa: ANN001
    """One case; returns None or a record of what went wrong."""
    ctx.desc = None
    seed_globals(ctx.seed, ctx.pid, kind, i)
    rng = case_rng(ctx.seed, ctx.pid, kind, i)
    try:
        mod.KINDS[kind]["fn"](ctx, rng) if kind != "probe" else mod.PROBES[i](ctx)
    except Skip as e:
        ctx.ev(f"skipped:{kind}:{e}")
        ctx.ev("skipped")
    except Violated as e:
        return {"verdict": "violation", "what": str(e), "trace": ""}
    except MemoryError:
        return {"verdict": "error", "what": "out of memory", "trace": ""}
    except Exception as e:  # noqa: BLE001
        tr = traceback.format_exc()
        if from_repo(sys.exc_info()[2]):
            return {"verdict": "violation", "what": f"raised {type(e).__name__}: {str(e)[:400]}", "trace": tr[-4000:]}
        # numbers that cannot be processed came out of the code under test; missing names did not
        ours = isinstance(e, (ImportError, AttributeError, NameError, OSError)) or "argument" in str(e)
        verdict = "error" if ours else "violation"
        return {"verdict": verdict, "what": f"unusable result: {type(e).__name__}: {e}", "trace": tr[-4000:]}
    return None


def worker(modname, pid, tier, seed, jobs, scratch, shared, status, outfile, deadline) -> None:  # noqa: ANN001
    so = shared.get("so")
    from lib import boot

    logf = open(outfile + ".log", "w")  # noqa: SIM115
    os.dup2(logf.fileno(), 1)
    os.dup2(logf.fileno(), 2)
    res = {"records": [], "done": Counter(), "samples": []}
    ctx = None
    try:
        boot.activate(pathlib.Path(so) if so else None)
        os.chdir(scratch)
        mod = importlib.import_module(modname)
        ctx = Ctx(pid, tier, seed, pathlib.Path(scratch), shared)
        if hasattr(mod, "worker_setup"):
            mod.worker_setup(ctx)
        for n, (kind, i) in enumerate(jobs):
            if time.time() > deadline and kind != "probe":
                res["stopped"] = True
                break
            status[0], status[1] = n, int(time.process_time() * 1000)
            before = len(ctx.sigs)
            rec = run_case(ctx, mod, kind, i)
            logf.flush()
            if logf.tell() > 5_000_000:
                logf.seek(0)
                logf.truncate()
            res["done"][kind] += 1
            if len(ctx.sigs) > before and len(res["samples"]) < 60 and res["done"][kind] <= 3:
                res["samples"].append({"kind": kind, "case": jsonable(ctx.desc)})
            if rec:
                rec.update(kind=kind, i=i, case=jsonable(ctx.desc))
                res["records"].append(rec)
                if len(res["records"]) >= 3:
                    break
    except Exception as e:  # noqa: BLE001
        tr = traceback.format_exc()
        verdict = "violation" if from_repo(sys.exc_info()[2]) else "error"
        res["records"].append({
            "verdict": verdict,
            "what": f"while starting: {type(e).__name__}: {e}",
            "trace": tr[-4000:],
            "kind": "start",
            "i": 0,
            "case": None,
        })
    if ctx is not None:
        res.update(events=ctx.events, states=ctx.states, sigs=ctx.sigs, known=ctx.known_seen, maxima=ctx.maxima)
    tmp = outfile + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump(res, f)
    os.replace(tmp, outfile)
    os._exit(0)


def plan(mod, tier: str) -> list[tuple[str, int]]:  # noqa: ANN001
    jobs = []
    kinds = {k: v.get(tier, v["quick"] * (12 if tier == "thorough" else 1)) for k, v in mod.KINDS.items()}
    top = max(kinds.values(), default=0)
    # interleave the kinds so that a time cap cuts all of them evenly
    order = []
    for k, n in kinds.items():
        order.extend(((i + 0.5) / n, k, i) for i in range(n))
    order.sort()
    del top
    jobs.extend((k, i) for _, k, i in order)
    return jobs


def main(modname: str, argv: list[str]) -> int:
    t0 = time.time()
    mod = importlib.import_module(modname)
    pid = mod.PID
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    args = list(argv)
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = json.loads(pathlib.Path(args.pop(0)).read_text())
            tier, seed = replay["tier"], replay["seed"]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"v{pid}_"))
    os.environ["VERIF_SCRATCH"] = str(scratch)
    code = 2
    try:
        code = _main(mod, modname, pid, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def _main(mod, modname, pid, tier, seed, replay, scratch, t0) -> int:  # noqa: ANN001, PLR0912, PLR0914, PLR0915
    from lib import boot

    shared: dict = {}
    violations: list[dict] = []
    errors: list[dict] = []
    if getattr(mod, "NEEDS_BINDINGS", False):
        try:
            shared["so"] = str(boot.build_bindings())
        except RuntimeError as e:
            print(str(e))
            return 2
    if hasattr(mod, "prepare"):
        shared.update(mod.prepare(scratch, tier, seed) or {})
    t_build = time.time() - t0
    budget = getattr(mod, "BUDGET", {}).get(tier, 75 if tier == "quick" else 600)
    deadline = time.time() + budget
    if replay:
        jobs = [(replay["kind"], replay["i"])]
        deadline += 3600
    else:
        jobs = plan(mod, tier)
    nprobe = len(getattr(mod, "PROBES", []))
    nw = 1 if replay else min(getattr(mod, "WORKERS", 8), max(1, len(jobs)))
    lots: list[list] = [[] for _ in range(nw)]
    if not replay:
        for k in range(nprobe):
            lots[k % nw].append(("probe", k))
    for k, j in enumerate(jobs):
        lots[k % nw].append(j)
    mpx = mp.get_context("fork")
    procs = []
    for w in range(nw):
        d = scratch / f"w{w}"
        d.mkdir()
        status = mpx.Array("q", [0, 0], lock=False)
        out = str(scratch / f"w{w}.pkl")
        p = mpx.Process(
            target=worker, args=(modname, pid, tier, seed, lots[w], str(d), shared, status, out, deadline)
        )
        p.start()
        procs.append([p, status, out, lots[w], -1, 0.0])
    hard = deadline + 180
    tick = os.sysconf("SC_CLK_TCK")

    def cpu_of(p: int) -> float:
        try:
            f = pathlib.Path(f"/proc/{p}/stat").read_text().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / tick
        except (OSError, IndexError):
            return 0.0

    agg_events: Counter = Counter()
    done: Counter = Counter()
    known: Counter = Counter()
    sigs: set = set()
    states: dict[str, set] = {}
    maxima: dict[str, float] = {}
    samples: list = []
    live = list(procs)
    stopped = False
    while live:
        time.sleep(0.05)
        for rec in list(live):
            p, status, out, lot, last, cpu0 = rec
            if p.is_alive():
                if status[0] != last:
                    rec[4], rec[5] = status[0], cpu_of(p.pid)
                elif cpu_of(p.pid) - cpu0 > HANG_CPU_S and lot:
                    kind, i = lot[status[0]]
                    p.kill()
                    p.join()
                    violations.append({
                        "verdict": "violation", "kind": kind, "i": i, "case": None, "trace": "",
                        "what": f"no answer after {HANG_CPU_S:.0f} s of processor time (such a case takes seconds)",
                    })
                    live.remove(rec)
                elif time.time() > hard:
                    p.kill()
                    p.join()
                    errors.append({"what": "a worker did not finish in time", "kind": "", "i": 0, "trace": ""})
                    live.remove(rec)
                continue
            p.join()
            live.remove(rec)
            if os.path.exists(out):
                with open(out, "rb") as f:
                    res = pickle.load(f)  # noqa: S301
                stopped |= bool(res.get("stopped"))
                for r in res["records"]:
                    (violations if r["verdict"] == "violation" else errors).append(r)
                agg_events.update(res.get("events", {}))
                done.update(res["done"])
                known.update(res.get("known", {}))
                sigs |= res.get("sigs", set())
                for k, v in res.get("states", {}).items():
                    states.setdefault(k, set()).update(v)
                for k, v in res.get("maxima", {}).items():
                    maxima[k] = max(maxima.get(k, -1e300), v)
                samples.extend(res["samples"])
            else:
                kind, i = lot[status[0]] if lot else ("start", 0)
                sig = -p.exitcode if p.exitcode and p.exitcode < 0 else 0
                log = pathlib.Path(out + ".log")
                tail = log.read_text(errors="replace")[-3000:] if log.exists() else ""
                if sig in {signal.SIGKILL, signal.SIGTERM}:
                    errors.append({"what": f"worker ended by signal {sig}", "kind": kind, "i": i, "trace": tail})
                else:
                    violations.append({
                        "verdict": "violation", "kind": kind, "i": i, "case": None, "trace": tail,
                        "what": f"the process died (exit {p.exitcode}) while running the case",
                    })
    # ---- extra deciding step run once in the parent (sanitizer binaries and the like)
    if hasattr(mod, "finish") and not replay:
        ctx = Ctx(pid, tier, seed, scratch, shared)
        for r in mod.finish(ctx) or []:
            (violations if r["verdict"] == "violation" else errors).append(r)
        agg_events.update(ctx.events)
        known.update(ctx.known_seen)
        sigs |= ctx.sigs
        for k, v in ctx.states.items():
            states.setdefault(k, set()).update(v)
        for k, v in ctx.maxima.items():
            maxima[k] = max(maxima.get(k, -1e300), v)
    evals = sum(done.values())
    lacking = []
    if not replay and not violations:
        for name, need in getattr(mod, "REQUIRED", {}).items():
            got = len(states[name[1:]]) if name.startswith("#") and name[1:] in states else agg_events.get(name, 0)
            if got < need:
                lacking.append(f"{name}: {got} < {need}")
    pick: list = []
    seen_kind: Counter = Counter()
    for s in sorted(samples, key=lambda s: (s["kind"], json.dumps(s))):
        if seen_kind[s["kind"]] < 2:
            seen_kind[s["kind"]] += 1
            text = json.dumps(s)
            pick.append(s if len(text) < 2500 else {"kind": s["kind"], "case": text[:2500]})
    if not replay:
        ev = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": int(evals + agg_events.get("extra_evaluations", 0)),
                "distinct_nontrivial": len(sigs),
                "rule": mod.RULE,
                "samples": pick[:16] or ["none"],
                "cases_by_kind": dict(sorted(done.items())),
                "observed_events": {k: int(v) for k, v in sorted(agg_events.items())},
                "distinct_states": {k: len(v) for k, v in sorted(states.items())},
                "state_values": {k: sorted(v)[:60] for k, v in sorted(states.items())},
                "maxima": {k: v for k, v in sorted(maxima.items())},
                "known_findings_observed": dict(known),
                "stopped_by_time": stopped,
                "build_s": round(t_build, 1),
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    listed = known_findings(pid)
    for k in sorted(listed):
        if known.get(k):
            print(f"KNOWN-FINDING: property={pid} {k}: {listed[k]} (seen {known[k]} times)")
    if violations:
        v = min(violations, key=lambda r: (r["kind"] != "probe", r["i"]))
        rdir = VERIF / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{pid}-{v['kind']}-{v['i']}-s{seed}-{tier}.json"
        path.write_text(
            json.dumps({"property": pid, "tier": tier, "seed": seed, **{k: v[k] for k in ("kind", "i", "what", "case", "trace")}}, indent=1)
        )
        for r in violations[:4]:
            print(f"  [{r['kind']} #{r['i']}] {r['what'][:700]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for r in errors[:4]:
            print(f"ERROR {pid} [{r['kind']} #{r['i']}] {r['what']}\n{r['trace']}")
        return 2
    if lacking:
        print(f"INCONCLUSIVE {pid}: the monitors saw too little: " + "; ".join(lacking))
        return 3
    print(
        f"OK {pid} {tier} seed={seed}: {evals} cases, {len(sigs)} distinct non-trivial, "
        f"{agg_events.get('oracle_evaluations', 0)} oracle evaluations, {time.time() - t0:.1f} s"
    )
    return 0
