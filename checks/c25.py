"""C25: choosing, configuring and running backends: names, options, devices, jobs and their states follow one model."""
from __future__ import annotations

import os
import pickle
import re
import threading
import time
import uuid

import numpy as np

from lib import gen, ref, sut

PID = "C25"
RULE = (
    "random name patterns, histories of creating, configuring and running several backends, jobs with scripted states and jobs made by "
    "many threads and processes; distinct by the pattern, history or script; non-trivial: more than one backend, step or state"
)
CLASSES = {
    "tnsim": "TNSim", "misim": "MISim", "innsbruck01": "Innsbruck01", "faketraps2trits": "FakeIonTraps2Trits",
    "faketraps2six": "FakeIonTraps2Six", "faketraps3six": "FakeIonTraps3Six",
}
PIECES = ["sim", "t", "fake", "traps", "2", "3", "six", "trits", "^", "$", ".", ".*", "i", "mi", "tn", "inns", "01", "[23]", "(two|2)", "x", "T", "zz", "\\d", "s+", ""]


def provider():
    from mqt.qudits.simulation import MQTQuditProvider

    return MQTQuditProvider()


def circuit(rng, most=3):
    dims = [int(x) for x in rng.integers(2, 4, int(rng.integers(1, most + 1)))]
    return gen.spec(rng, dims, ["r", "rz", "h", "x", "z"], int(rng.integers(1, 6)), ctrl=0)


def selection(ctx, rng):
    p = provider()
    how = rng.random()
    names = list(CLASSES)
    if how < 0.3:
        pattern = str(rng.choice(names))
    elif how < 0.55:
        n = str(rng.choice(names))
        a = int(rng.integers(len(n)))
        pattern = n[a: a + int(rng.integers(1, len(n) + 1))]
    else:
        pattern = "".join(str(x) for x in rng.choice(PIECES, int(rng.integers(1, 4))))
    try:
        hits = [n for n in names if re.search(pattern, n)]
    except re.error:
        hits = None
    ctx.case({"pattern": pattern, "hits": hits}, nontrivial=bool(hits))
    if hits is None:
        for f in (p.get_backend, p.backends):
            with ctx.quiet():
                try:
                    f(pattern)
                    ctx.fail("a name that is no pattern is accepted", pattern=pattern)
                except (re.error, ValueError):
                    ctx.ev("refused_names")
        return
    ctx.check(sorted(p.backends()) == sorted(names), "the provider does not list its backends", got=p.backends())
    ctx.check(sorted(p.backends(pattern)) == sorted(hits), "the backends listed for a name are not those matching it", pattern=pattern, got=p.backends(pattern), want=hits)
    try:
        b = p.get_backend(pattern)
    except ValueError as e:
        ctx.check(len(hits) != 1, "a name that fits one backend is refused", pattern=pattern, error=str(e))
        ctx.ev("refused_names")
        if hits:
            ctx.ev("ambiguous_names")
            ctx.check(all(h in str(e) for h in hits), "the error does not name the backends that match", error=str(e), want=hits)
        return
    ctx.check(len(hits) == 1, "a name that fits no or several backends gives one", pattern=pattern, hits=hits, got=type(b).__name__)
    if len(hits) == 1:
        ctx.check(type(b).__name__ == CLASSES[hits[0]], "a name gives another backend", pattern=pattern, want=hits[0], got=type(b).__name__)
        ctx.check(b.provider is p, "a backend does not know its provider")
        ctx.check(p.get_backend(pattern) is not b, "two requests for a backend share one object")
        ctx.ev("backends_found")
        ctx.seen("backends", hits[0])
    with ctx.quiet():
        try:
            p.get_backend()
            ctx.fail("a request without a name gives a backend")
        except ValueError:
            pass
    q = provider()
    ctx.check(p == q and hash(p) == hash(q) and p != 3 and not (p != q), "two providers are not the same")


def noise(rng):
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel

    m = NoiseModel()
    m.add_quantum_error_locally(Noise(float(rng.uniform(0, 0.2)), float(rng.uniform(0, 0.2))), ["h", "x", "rxy", "rz", "z"])
    return m


FIELDS = ("shots", "memory", "noise_model", "full_state_memory", "file_path", "file_name")


def options(ctx, rng):
    """Several backends configured and run in any order follow a dictionary each."""
    p = provider()
    backs, models, own, hist = [], [], [], []
    runs = 0
    for _ in range(int(rng.integers(3, 14))):
        act = str(rng.choice(["new", "set", "run", "wrong", "read"])) if backs else "new"
        def some():
            out = {}
            for f in FIELDS:
                if rng.random() < 0.3:
                    out[f] = {
                        "shots": lambda: int(rng.integers(50, 60)), "memory": lambda: bool(rng.random() < 0.5),
                        "noise_model": lambda: None if rng.random() < 0.8 else noise(rng), "full_state_memory": lambda: bool(rng.random() < 0.5),
                        "file_path": lambda: None, "file_name": lambda: None,
                    }[f]()
            return out
        if act == "new":
            if len(backs) == 4:
                continue
            name = str(rng.choice(list(CLASSES)))
            kw = some()
            hist.append(["new", name, sorted(kw)])
            b = p.get_backend(f"^{name}$", **kw)
            m = {"shots": 50, "memory": False, "noise_model": None, **kw}
            if name.startswith("fake") or name == "innsbruck01":
                m["noise_model"] = b.options["noise_model"]  # those set their own
                if name.startswith("fake"):
                    ctx.check(len(m["noise_model"].quantum_errors) >= 5, "a fake device has no noise of its own", device=name)
                    ctx.check(all(m["noise_model"] is not o.get("noise_model") for o in models), "two devices share one noise model")
            backs.append(b), models.append(m), own.append(name)
            continue
        k = int(rng.integers(len(backs)))
        b, m = backs[k], models[k]
        if act == "set":
            kw = some()
            hist.append(["set", k, sorted(kw)])
            b.set_options(**kw)
            m.update(kw)
            ctx.ev("options_set", len(kw))
        elif act == "wrong":
            bad = str(rng.choice(["shot", "Shots", "seed", "noise", "filepath", "shots_"]))
            hist.append(["wrong", k, bad])
            kw = {**some(), bad: 3}
            with ctx.quiet():
                try:
                    b.set_options(**kw)
                    ctx.fail("an option no backend has is accepted", option=bad)
                except AttributeError:
                    ctx.ev("options_refused")
        elif act == "run":
            if runs >= 3:
                continue
            c = circuit(rng)
            kw = some()
            if m.get("noise_model") is not None and "noise_model" not in kw and rng.random() < 0.6:
                kw["noise_model"] = None
            eff = {**m, **kw}
            if eff.get("noise_model") is not None:
                runs += 1
            hist.append(["run", k, sorted(kw)])
            qc = sut.build(c)
            job = b.run(qc, **kw)
            m.update(kw)
            ctx.check(job.backend() is b, "a job does not know its backend")
            r = job.result()
            ctx.check(job.result() is r, "a job gives another result the second time")
            cnt, sv = r.get_counts(), np.asarray(r.get_state_vector())
            noisy = eff.get("noise_model") is not None
            if own[k] == "innsbruck01":
                ctx.check(len(cnt) == 0 and sv.size == 0, "the prototype of a device reports results")
            else:
                want = ref.state(c)
                ctx.check(sv.shape == (1, len(want)) and np.abs(sv.ravel() - want).max() < 1e-6, "a run's state is not that of its circuit", backend=own[k])
                ctx.check(len(cnt) == (eff["shots"] if noisy else 0), "a run does not make the number of shots its options say", options=sorted(eff), got=len(cnt), want=eff["shots"])
                full = bool(eff.get("full_state_memory"))
                for x in cnt:
                    if full:
                        x = np.asarray(x)
                        ok = x.size == len(want) and abs(np.linalg.norm(x) - 1) < 1e-6
                    else:
                        ok = np.ndim(x) == 0 and 0 <= int(x) < len(want)
                    ctx.check(ok, "a shot gives something else than its options say", full=full)
                ctx.ev("shots", len(cnt))
            ctx.ev("runs")
            if noisy:
                ctx.ev("noisy_runs")
            ctx.check(b.shots == eff["shots"] and b.memory == eff["memory"] and b.noise_model is eff["noise_model"], "a run goes by other options", backend=own[k])
        for b2, m2 in zip(backs, models):
            o = b2.options
            ctx.check(set(o) == set(m2) and all(o[f] is m2[f] or o[f] == m2[f] for f in m2), "the options are not those that were set", step=hist[-1])
    ctx.case({"hist": hist}, nontrivial=len(hist) > 2)
    ctx.ev("histories")


def jobs(ctx, rng):
    """Jobs whose state follows a script, waited for with and without a limit."""
    from mqt.qudits.exceptions import JobError, JobTimeoutError
    from mqt.qudits.simulation.jobs import Job, JobResult, JobStatus

    final = {JobStatus.DONE, JobStatus.ERROR, JobStatus.CANCELLED}
    script = [JobStatus(x) for x in rng.choice(["initializing", "queued", "validating", "running"], int(rng.integers(0, 6)))]
    end = JobStatus(str(rng.choice(["done", "error", "cancelled"])))
    stuck = rng.random() < 0.25
    asyn = rng.random() < 0.85
    as_text = rng.random() < 0.3
    ctx.case({"script": [x.value for x in script], "end": end.value, "stuck": bool(stuck), "async": bool(asyn), "text": bool(as_text)}, nontrivial=bool(script))
    polls = []

    class Scripted(Job):
        _async = bool(asyn)

        def status(self):
            i = len(polls)
            s = (script[i] if i < len(script) else (JobStatus.RUNNING if stuck else end))
            polls.append(s)
            if len(polls) > 3000:  # nobody may poll a finished job for ever
                raise RuntimeError("polled for ever")
            return s.value if as_text else s

    be = provider().get_backend("tnsim")
    with_backend = rng.random() < 0.7
    jid = "auto" if rng.random() < 0.5 else f"job-{int(rng.integers(1000))}"
    meta = {"tag": int(rng.integers(9))}
    j = Scripted(be if with_backend else None, jid, **meta)
    ctx.check(j.metadata == meta, "a job loses its metadata")
    ctx.check(j.job_id() == j.job_id() and (jid == "auto" or j.job_id() == jid), "a job has another id than it was given")
    if with_backend:
        ctx.check(j.backend() is be, "a job does not know its backend")
    else:
        with ctx.quiet():
            try:
                j.backend()
                ctx.fail("a job without a backend gives one")
            except JobError:
                pass
    told = []
    timeout = [0, 0.0, 0.005, 0.02, 0.05][int(rng.integers(5))] if stuck else [None, None, 60, 0][int(rng.integers(4))]
    began = time.time()
    try:
        with ctx.quiet():
            j.wait_for_final_state(timeout=timeout, wait=0.0 if not stuck else 0.001, callback=lambda i, s, job: told.append((i, JobStatus(s), job)))
        out = "returned"
    except JobTimeoutError:
        out = "timeout"
    except RuntimeError as e:
        out = str(e)
    if not asyn:
        ctx.check(out == "returned" and not polls, "waiting for a job that is not asynchronous asks for its state")
    elif stuck:
        ctx.check(out == "timeout", "waiting for a job that never ends outlasts its time limit", out=out, limit=timeout)
        ctx.check(time.time() - began > 0.9 * timeout, "waiting gives up before its time is over", limit=timeout, after=time.time() - began)
        ctx.ev("timeouts")
    elif timeout == 0 and script:
        ctx.check(out == "timeout" or len(polls) > len(script), "a wait of no time does not end at once", out=out, polls=[x.value for x in polls])
        ctx.ev("no_time")
    else:
        ctx.check(out == "returned", "waiting for a job that has ended does not come back", state=end.value, out=out)
        if out == "returned":
            ctx.check(polls == [*script, end], "waiting does not end with the first final state", polls=[x.value for x in polls])
            ctx.check([t[1] for t in told] == script and all(t[0] == j.job_id() and t[2] is j for t in told), "the callback is not told of every state before the end")
        ctx.ev("waits")
    ctx.seen("ends", end.value)
    # the questions a job answers about its state
    for s in JobStatus:
        class At(Job):
            def status(self, s=s):
                return s.value if as_text else s

        a = At(None)
        ctx.check(
            [a.done(), a.running(), a.cancelled(), a.in_final_state()] == [s == JobStatus.DONE, s == JobStatus.RUNNING, s == JobStatus.CANCELLED, s in final],
            "a job answers wrongly about its state", state=s.value)
    r = JobResult(np.array([1.0]), [0, 1])
    j.set_result(r)
    ctx.check(j.result() is r and list(r.get_counts()) == [0, 1] and r.get_state_vector()[0] == 1.0, "a job's result is not the one that was set")
    # states and their names
    for s in JobStatus:
        t = "".join(c.upper() if rng.random() < 0.5 else c for c in s.value)
        ctx.check(JobStatus.from_string(t) is s, "the name of a state does not give the state", name=t)
        ctx.check(s.is_final == (s in final), "a state is wrong about being final", state=s.value)
        ctx.check(str(s) == s.description and len({x.description for x in JobStatus}) == len(JobStatus), "two states have one description")
    ctx.check(set(JobStatus.non_final_states()) == set(JobStatus) - final, "the states before the end are listed wrongly")
    bad = str(rng.choice(["", "don", "done ", "finished", "JobStatus.DONE", "0"]))
    with ctx.quiet():
        try:
            JobStatus.from_string(bad)
            ctx.fail("a name of no state gives a state", name=bad)
        except ValueError:
            ctx.ev("refused_states")


def identities(ctx, rng):
    """Ids of jobs made at the same time by threads and by processes that forked."""
    from mqt.qudits.simulation.jobs import Job

    threads, procs, each = int(rng.integers(2, 6)), int(rng.integers(1, 4)), int(rng.integers(50, 300))
    ctx.case({"threads": threads, "procs": procs, "each": each})
    Job(None)  # some were made before the fork
    got: list[list[str]] = []

    def make(n):
        out = []
        for _ in range(n):
            out.append(Job(None).job_id())
        return out

    pipes = []
    for _ in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(make(each), f)
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    start = threading.Barrier(threads)

    def go():
        start.wait()
        x = make(each)
        got.append(x)

    ts = [threading.Thread(target=go) for _ in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            got.append(pickle.load(f))  # noqa: S301  (our own child wrote it)
        os.waitpid(pid, 0)
    ids = [i for x in got for i in x]
    ctx.check(len(ids) == (threads + procs) * each, "a maker of jobs did not finish", got=len(ids))
    ctx.check(len(set(ids)) == len(ids), "two jobs have the same id", jobs=len(ids), different=len(set(ids)))
    ctx.check(all(isinstance(i, str) and i for i in ids), "an id is no text")
    ctx.ev("ids", len(ids))


SIX = {(0, 2): 3, (0, 3): 3, (0, 4): 4, (0, 5): 4, (1, 2): 4, (1, 3): 3, (1, 4): 3, (1, 5): 3}
# device: transitions with their sensitivity, physical place of each level, calibrated level, number of carriers of information
DECLARED = {
    "faketraps2trits": ({(0, 1): 3, (0, 2): 3}, [0, 2, 1], 1, 2),
    "faketraps2six": (SIX, [0, 1, 2, 3, 4, 5], 1, 2),
    "faketraps3six": (SIX, [0, 1, 2, 3, 4, 5], 1, 3),
    "innsbruck01": ({(0, 1): 3, (1, 2): 4}, [0, 1, 2], 1, 2),
}
ENT = {"nonlocal": (0.1, 0.001), "target": (0.1, 0.0), "control": (0.01, 0.0)}
ERRORS = {
    "csum": {"all": (0.001, 0.001), "control": (0.01, 0.0), "nonlocal": (0.1, 0.1)}, "cx": ENT, "ls": ENT, "ms": ENT,
    **{g: {"local": (0.001, 0.001)} for g in ("h", "rxy", "s", "x", "z")}, **{g: {"local": (0.03, 0.03)} for g in ("rz", "virtrz")},
}


def as_declared(ctx, name, b, when):
    edges, places, init, count = DECLARED[name]
    gs = b.energy_level_graphs
    ctx.check(len(gs) == count, "a device has another number of qudits than declared", device=name, got=len(gs), when=when)
    for i, g in enumerate(gs):
        got = {(min(x, y), max(x, y)): d["sensitivity"] for x, y, d in g.edges(data=True)}
        ctx.check(got == edges, "a device's transitions are not those declared", device=name, qudit=i, got=sorted((*k, v) for k, v in got.items()), when=when)
        ctx.check(list(g.log_phy_map) == places, "a device's levels are placed elsewhere than declared", device=name, qudit=i, got=list(g.log_phy_map), when=when)
        ctx.check(
            [g.nodes[x]["lpmap"] for x in range(len(places))] == places and [x for x in g.nodes if g.nodes[x]["level"] == "i"] == [init],
            "a device's levels are marked otherwise than declared", device=name, qudit=i, got=str(dict(g.nodes(data=True))), when=when,
        )
        ctx.ev("graphs_as_declared")
    if name != "innsbruck01":
        m = b.options["noise_model"].quantum_errors
        got = {g: {k: (e.probability_depolarizing, e.probability_dephasing) for k, e in v.items()} for g, v in m.items()}
        ctx.check(got == ERRORS, "a device's errors are not those declared", device=name, got=str(got), when=when)


def devices(ctx, rng):
    """What a device says about itself: its carriers and levels, and that requests do not change it."""
    name = str(rng.choice([n for n in CLASSES if n not in ("tnsim", "misim")]))
    b = provider().get_backend(f"^{name}$")
    gs = b.energy_level_graphs
    ctx.case({"device": name, "n": len(gs), "u": uuid.uuid4().hex[:4] if rng.random() < 0.01 else ""})
    for i, g in enumerate(gs):
        n = len(g.nodes)
        ctx.check(sorted(g.nodes) == list(range(n)) and sorted(g.log_phy_map) == list(range(n)), "the levels of a device are no permutation", device=name)
        import networkx as nx

        ctx.check(nx.is_connected(g), "a level of a device cannot be reached", device=name)
        ctx.check(all("sensitivity" in d for _, _, d in g.edges(data=True)), "a transition has no sensitivity")
        if name == "innsbruck01":
            seen = set()
            for x, y in g.edges:
                c = b.edge_to_carrier(x, y, i)
                ctx.check(c == b.edge_to_carrier(y, x, i) == g[x][y]["carrier"], "a transition has two carriers")
                seen.add(c)
                ctx.ev("carriers")
            ctx.check(len(seen) == len(g.edges), "two transitions share a carrier")
    if name.startswith("fake"):
        m = b.options["noise_model"]
        for gname, modes in m.quantum_errors.items():
            for mode, e in modes.items():
                for pr in (e.probability_depolarizing, e.probability_dephasing):
                    ctx.check(0 <= pr <= 1, "a device's error has no probability", gate=gname, mode=str(mode))
                    ctx.ev("device_errors")
    as_declared(ctx, name, b, "at first")
    from mqt.qudits.compiler import QuditCompiler

    n = len(gs)
    d = len(DECLARED[name][1])
    dims = [int(x) for x in rng.integers(2, d + 1, int(rng.integers(1, n + 1)))]
    sp = gen.spec(rng, [d] * len(dims) if rng.random() < 0.7 else dims, ["r", "rz", "h", "x", "z"], int(rng.integers(1, 5)), ctrl=0)
    what = str(rng.choice(["O0", "O1", "O2", "run"]))
    with ctx.quiet():
        try:
            if what != "run":
                getattr(QuditCompiler(), "compile_" + what)(b, sut.build(sp))
            elif name.startswith("fake"):
                b.run(sut.build(sp), shots=60).result()
        except (ValueError, IndexError, KeyError, AssertionError, NotImplementedError):
            ctx.ev("refused_work")  # judged by other checks; here only what is left behind counts
    as_declared(ctx, name, b, what)
    as_declared(ctx, name, provider().get_backend(f"^{name}$"), "another " + what)
    ctx.seen("device_work", what)
    ctx.seen("devices", name)


KINDS = {
    "selection": {"fn": selection, "quick": 250, "thorough": 4000},
    "options": {"fn": options, "quick": 70, "thorough": 900},
    "jobs": {"fn": jobs, "quick": 250, "thorough": 4000},
    "identities": {"fn": identities, "quick": 30, "thorough": 300},
    "devices": {"fn": devices, "quick": 40, "thorough": 400},
}
PROBES: list = []
REQUIRED = {
    "backends_found": 60, "refused_names": 30, "ambiguous_names": 10, "#backends": 6, "options_set": 40, "options_refused": 15, "runs": 50,
    "noisy_runs": 5, "shots": 250, "waits": 80, "timeouts": 20, "no_time": 10, "#ends": 3, "refused_states": 100, "ids": 5000, "#devices": 4, "graphs_as_declared": 100, "#device_work": 4,
}
ASSUMPTIONS = [
    "options given to run stay in force for later runs of the same backend, as the code stores them",
    "the fake devices keep their own noise model even when one is passed to their constructor",
    "JOB_FINAL_STATES defines which states end a job",
]
NEEDS_BINDINGS = True
