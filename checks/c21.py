"""C21: the decision-diagram package computes linear algebra and keeps its diagrams canonical."""
from __future__ import annotations

import numpy as np

from lib import dd, gen, ref

PID = "C21"
RULE = (
    "random histories of public operations of the package on up to 5 lines of mixed dimensions (and lines of many levels, tiny weights, 7-120 lines), each result compared with dense matrices and "
    "walked node by node; distinct by dimensions with the sequence of operations"
)


def prepare(scratch, tier, seed):
    return {"exe": str(dd.build(scratch, dd.PLAIN))}


class Run:
    """One package with its diagrams, each next to what it has to be."""

    def __init__(self, ctx, rng, ds):
        self.ctx, self.rng, self.ds = ctx, rng, ds
        self.n = int(np.prod(ds))
        self.v, self.m = {}, {}
        self.next = 0
        self.ops = []
        self.counts = []
        self.mon = dd.Mon(ctx.shared["exe"])
        self.mon("pkg", len(ds), *ds)

    def call(self, *words):
        try:
            r = self.mon(*words)
        except dd.Died as e:
            self.ctx.fail(str(e), history=self.mon.log[:-1][-12:])
        if self.mon.viol:
            self.ctx.fail(self.mon.viol[0], operation=" ".join(map(str, words))[:200], history=self.mon.log[-12:-1], dims=self.ds)
        if isinstance(r, tuple):
            self.ctx.fail("an operation on valid diagrams fails", thrown=r[1], operation=" ".join(map(str, words))[:200], history=self.mon.log[-12:-1], dims=self.ds)
        return r

    def judge(self, words, want, tol=1e-8):
        got = self.call(*words)
        want = np.asarray(want).reshape(-1)
        if len(got) != len(want) and np.abs(want).max() < 1e-12 and not np.any(got):
            got = want  # zero has no lines
        self.ctx.check(len(got) == len(want), "a result has the wrong size", operation=words[:4], history=self.mon.log[-12:-1])
        dev = float(np.abs(got - want).max(initial=0))
        self.ctx.check(dev < tol * max(1.0, float(np.abs(want).max(initial=0))), "the package computes something else", dev=dev, operation=" ".join(map(str, words))[:200],
                       history=self.mon.log[-12:-1], dims=self.ds)
        self.ctx.mx("largest_deviation", dev)
        self.ctx.ev(words[0])
        self.ops.append(words[0])
        return got

    def slot(self):
        self.next += 1
        return self.next

    def keep(self, table, k, x):
        s = float(np.abs(x).max(initial=0))
        if 1e-3 < s < 1e3 or s == 0:
            table[k] = x
        return k

    def gate(self):
        rng = self.rng
        t = int(rng.integers(len(self.ds)))
        others = gen.ints(rng.permutation([q for q in range(len(self.ds)) if q != t]))
        others = others[: int(rng.integers(0, len(others) + 1))] if rng.random() < 0.6 else []
        cs = [(q, int(rng.integers(self.ds[q]))) for q in others]
        words, m = dd.named(rng, self.ds[t]) if rng.random() < 0.5 and self.ds[t] <= 7 else dd.matrix(rng, self.ds[t])
        k = self.slot()
        full = dd.embed(self.ds, m, t, cs)
        cmd = ["gate", k, t, len(cs), *[x for c in cs for x in c], *words]
        self.judge(cmd, full)
        self.ctx.seen("gates", (words[0], self.ds[t]))
        if cs:
            self.ctx.ev("controlled_gates")
        if rng.random() < 0.2:
            j = self.slot()
            self.judge([cmd[0], j, *cmd[2:]], full)
            self.ctx.check(self.call("samem", k, j)[0] == 1, "the same gate is stored twice", gate=cmd[2:8])
        return self.keep(self.m, k, full)

    def entangler(self):
        rng = self.rng
        c, t = gen.ints(rng.permutation(len(self.ds))[:2])
        k = self.slot()
        dag = int(rng.integers(2))
        if rng.random() < 0.5:
            u = dd.csum(self.ds, c, t, dag)
            self.judge(["csum", k, c, t, dag], u)
        else:
            a, b = sorted(gen.ints(rng.permutation(self.ds[t])[:2]))
            lev, phi = int(rng.integers(self.ds[c])), gen.angle(rng, 7)
            m = np.eye(self.ds[t], dtype=complex)
            m[a, a] = m[b, b] = 0
            m[a, b], m[b, a] = -1j * np.exp(-1j * phi), -1j * np.exp(1j * phi)
            u = dd.embed(self.ds, m.conj().T if dag else m, t, [(c, lev)])
            self.judge(["cex", k, c, t, lev, a, b, phi, dag], u)
        return self.keep(self.m, k, u)

    def pick(self, table):
        return list(table)[int(self.rng.integers(len(table)))]

    def step(self):
        rng = self.rng
        if not self.v or rng.random() < 0.06:
            k = self.slot()
            if rng.random() < 0.3:
                self.judge(["zero", k], dd.basis(self.ds, [0] * len(self.ds)))
                self.v[k] = dd.basis(self.ds, [0] * len(self.ds))
            else:
                st = [int(rng.integers(d)) for d in self.ds]
                self.judge(["basis", k, *st], dd.basis(self.ds, st))
                self.v[k] = dd.basis(self.ds, st)
            return
        if not self.m or rng.random() < 0.2:
            self.gate()
            return
        op = str(rng.choice(["mv", "mv", "mv", "mm", "mm", "addv", "addm", "ct", "tr", "inner", "fid", "getvec", "path", "spath", "mpath", "smpath",
                             "ident", "ent", "ent", "getmat", "spread", "again", "count", "negate"]))
        v, w, m, o = self.pick(self.v), self.pick(self.v), self.pick(self.m), self.pick(self.m)
        k = self.slot()
        if op == "ent" and len(self.ds) > 1 and max(self.ds) <= 7:
            self.entangler()
        elif op == "mv":
            self.judge([op, k, m, v], self.m[m] @ self.v[v])
            self.keep(self.v, k, self.m[m] @ self.v[v])
        elif op == "mm":
            self.judge([op, k, m, o], self.m[m] @ self.m[o])
            self.keep(self.m, k, self.m[m] @ self.m[o])
        elif op == "addv":
            self.judge([op, k, v, w], self.v[v] + self.v[w])
            self.keep(self.v, k, self.v[v] + self.v[w])
        elif op == "addm":
            self.judge([op, k, m, o], self.m[m] + self.m[o])
            self.keep(self.m, k, self.m[m] + self.m[o])
        elif op == "negate":  # a vector minus itself
            t = int(rng.integers(len(self.ds)))
            d = self.ds[t]
            words = ["mat"]
            for x in -np.eye(d).reshape(-1):
                words += [float(x), 0.0]
            self.judge(["gate", k, t, 0, *words], -np.eye(self.n))
            j = self.slot()
            self.judge(["mv", j, k, v], -self.v[v])
            h = self.slot()
            self.judge(["addv", h, j, v], 0 * self.v[v])
            self.ctx.ev("cancellations")
        elif op == "ct":
            self.judge([op, k, m], self.m[m].conj().T)
            self.m[k] = self.m[m].conj().T
        elif op == "tr":
            self.judge([op, k, m], self.m[m].T)
            self.m[k] = self.m[m].T
        elif op == "inner":
            self.judge([op, v, w], np.vdot(self.v[w], self.v[v]))
        elif op == "fid":
            self.judge([op, v, w], abs(np.vdot(self.v[w], self.v[v])) ** 2)
        elif op == "getmat":  # one digit (row, column) per line
            k2 = len(self.ds)
            x = self.m[m].reshape(list(reversed(self.ds)) * 2)
            self.judge([op, m], x.transpose([i for q in range(k2) for i in (q, k2 + q)]))
        elif op == "spread":
            self.spread(v)
        elif op == "getvec":
            self.judge([op, v], self.v[v])
        elif op in {"path", "spath"}:
            st = [int(rng.integers(d)) for d in self.ds]
            want = np.vdot(dd.basis(self.ds, st), self.v[v])
            if np.abs(self.v[v]).max() > 0 and (op == "path" or max(self.ds) <= 10):  # one character per line
                self.judge([op, v, *reversed(st)] if op == "path" else [op, v, "".join(map(str, st))], want)
        elif op in {"mpath", "smpath"}:
            r, c = ([int(rng.integers(d)) for d in self.ds] for _ in range(2))
            want = np.vdot(dd.basis(self.ds, r), self.m[m] @ dd.basis(self.ds, c))
            if op == "mpath":
                self.judge([op, m, *reversed(r), *reversed(c)], want)
            elif max(self.ds) <= 6:  # one character per line
                self.judge([op, m, "".join(chr(48 + a * d + b) for a, b, d in zip(r, c, self.ds))], want)
        elif op == "ident":
            self.judge([op, k], np.eye(self.n))
            self.m[k] = np.eye(self.n, dtype=complex)
        elif op == "count":
            self.count(v)
        elif op == "again" and self.m:  # the same product again is the same diagram
            self.judge(["mv", k, m, v], self.m[m] @ self.v[v])
            j = self.slot()
            self.judge(["mv", j, m, v], self.m[m] @ self.v[v])
            if np.abs(self.m[m] @ self.v[v]).max() > 1e-9:
                self.ctx.check(self.call("samev", k, j)[0] == 1, "the same product is stored twice")
                self.ctx.ev("repeated_products")

    def spread(self, v):
        """Push half (or two thirds) of level 1 of a line to others."""
        rng, ds = self.rng, self.ds
        first = [q for q in range(len(ds)) if ds[q] in {2, 3, 5}]
        for c, d in ((3, 3), (2, 2)):
            same = [q for q in range(len(ds)) if ds[q] == d]
            if len(same) >= c - 1 and len(first) > c - 1:
                break
        else:
            return
        to = gen.ints(rng.permutation(same)[: c - 1])
        src = [q for q in first if q not in to]
        if not src:
            return
        a = int(rng.choice(src))
        h = dd.named_matrix("h", d)
        x, y = np.roll(np.eye(d), 1, 0), np.roll(np.eye(ds[a]), 1, 0)
        w = dd.embed(ds, h, to[0], [(a, 1)]) @ self.v[v]
        w = dd.embed(ds, y.T, a, []) @ w
        w = dd.embed(ds, y, a, [(to[0], 0)]) @ w
        if c == 3:
            w = dd.embed(ds, x, to[1], [(to[0], 2)]) @ w
            u = dd.csum(ds, to[1], to[0], 1)
            w = u @ u @ w
        k = self.slot()
        self.judge(["spread", k, v, c, a, *to], w)
        self.keep(self.v, k, w)

    def count(self, v):
        """A canonical diagram has one node per distinct (normalised) part of the vector, and the terminal."""
        x = self.v[v]
        if np.abs(x).max() < 1e-9:
            return
        total = 1
        parts = [x]
        for q in reversed(range(len(self.ds))):
            total += len(parts)
            sub = []
            for p in parts:
                for y in p.reshape(self.ds[q], -1):
                    s = np.abs(y).max()
                    if s < 1e-7:
                        if s > 1e-11:
                            return
                        continue
                    y = y / y[int(np.argmax(np.abs(y) > 1e-3 * s))]
                    y = y / np.linalg.norm(y)
                    ds = [np.abs(y - z).max() for z in sub]
                    if all(d > 1e-6 for d in ds):
                        sub.append(y)
                    elif min(ds) > 1e-11:
                        return
            parts = sub
        got = self.call("count", v)[0].real
        self.ctx.ev("node_counts")
        self.ctx.check(got >= total, "the diagram has fewer nodes than the vector needs", got=got, want=total)
        self.ctx.mx("nodes_above_least", got - total)
        self.ctx.ev("minimal_diagrams", int(got == total))
        self.counts.append(bool(got == total))

    def finish(self):
        got = self.call("all")
        want = {}
        for table in (self.v, self.m):
            for k, x in table.items():
                x = np.asarray(x).reshape(-1)
                want[k] = x @ np.exp(0.37j * np.arange(len(x)))
        seen = dict(zip(got[0::2].real.astype(int).tolist(), got[1::2]))
        for k, s in want.items():
            self.ctx.check(abs(seen[k] - s) < 1e-7 * max(1.0, self.n), "a diagram changed after it was built", slot=k, history=self.mon.log[-20:], dims=self.ds)
        self.ctx.ev("rechecked_diagrams", len(want))
        if len(self.counts) >= 5:  # single ones may miss the least number by rounding
            self.ctx.check(sum(self.counts) >= 0.7 * len(self.counts), "diagrams do not share equal parts", minimal=sum(self.counts), of=len(self.counts))
            self.ctx.ev("sharing_checked")
        t = self.call("tables")
        self.ctx.check(t[0] == t[1], "the tables hold other nodes than they count", got=t)
        self.ctx.check(self.call("cache")[0] == 0, "numbers taken from the cache are not given back", got=self.call("cache")[0], history=self.mon.log[-30:], dims=self.ds)
        s = self.call("statics")
        self.ctx.check(np.allclose(s, [1, 0, np.sqrt(0.5), 1], atol=1e-15), "a shared constant was overwritten", got=s)
        st = self.call("stats")
        self.ctx.ev("nodes_walked", int(st[0].real))
        self.ctx.ev("shared_nodes", int(st[1].real))
        try:
            self.mon.close()
        except dd.Died as e:
            self.ctx.fail(str(e))


def on(ds, x, m, t, controls=()):
    """A controlled gate on a state kept as a tensor with line 0 last."""
    k = len(ds)
    x = x.copy()
    at = [slice(None)] * k
    for q, lev in controls:
        at[k - 1 - q] = slice(lev, lev + 1)
    part = x[tuple(at)]
    x[tuple(at)] = np.moveaxis(np.tensordot(m, part, axes=(1, k - 1 - t)), 0, k - 1 - t)
    return x


def fives(ctx, rng):
    """Spreading level 1 of a line over four lines of five levels."""
    ds = [5, 5, 5, 5]
    a = int(rng.integers(5))
    ds.insert(a, int(rng.choice([2, 3, 5])))
    others = [q for q in range(5) if q != a]
    r = Run(ctx, rng, ds)
    try:
        st = [int(rng.integers(d)) if rng.random() < 0.4 else 0 for d in ds]
        st[a] = 1
        k = r.slot()
        x = dd.basis(ds, st)
        r.judge(["basis", k, *st], x)
        x = x.reshape(list(reversed(ds)))
        for t in gen.ints(rng.permutation(5))[: int(rng.integers(0, 3))]:  # some superposition first
            m = ref.haar(ds[t], int(rng.integers(1 << 30)))
            g, j = r.slot(), r.slot()
            r.call("gate", g, t, 0, "mat", *[float(y) for z in m.reshape(-1) for y in (z.real, z.imag)])
            x = on(ds, x, m, t)
            r.judge(["mv", j, g, k], x)
            k = j
        to = gen.ints(rng.permutation(others))
        up = {d: np.roll(np.eye(d), 1, 0) for d in (2, 3, 5)}
        w = on(ds, x, dd.named_matrix("h", 5), to[0], [(a, 1)])
        w = on(ds, w, up[ds[a]].T, a)
        w = on(ds, w, up[ds[a]], a, [(to[0], 0)])
        for i in (1, 2, 3):
            w = on(ds, w, up[5], to[i], [(to[0], i + 1)])
            for lev in range(5):  # to[0] loses (i + 1) times the level of to[i]
                w = on(ds, w, np.linalg.matrix_power(up[5].T, (i + 1) * lev), to[0], [(to[i], lev)])
        j = r.slot()
        r.judge(["spread", j, k, 5, a, *to], w)
        r.v[j] = w.reshape(-1)
        r.v[k] = x.reshape(-1)
        ctx.ev("spread_over_five")
        ctx.case({"dims": ds, "history": r.mon.log[-40:]}, [ds, st, a, to])
        r.finish()
    finally:
        r.mon.kill()


def history(ctx, rng):
    while True:
        ds = [int(x) for x in rng.integers(2, 8 if rng.random() < 0.3 else 5, int(rng.integers(1, 6)))]
        if np.prod(ds) <= (64 if rng.random() < 0.2 else 36):
            break
    r = Run(ctx, rng, ds)
    try:
        for _ in range(int(rng.integers(5, 40))):
            r.step()
            ctx.case({"dims": ds, "history": r.mon.log[-40:]}, [ds, r.ops])
        r.finish()
    finally:
        r.mon.kill()


def long(ctx, rng):
    """Many operations on one package: the tables fill and their entries are overwritten."""
    ds = [int(x) for x in ([2, 3, 2], [3, 3], [2, 2, 2, 2], [4, 3], [2, 5], [3, 2, 3])[int(rng.integers(6))]]
    r = Run(ctx, rng, ds)
    try:
        for i in range(1500 if ctx.thorough else 500):
            r.step()
            if len(r.v) > 25 or len(r.m) > 25:  # go on with the newest and the oldest
                r.v = dict([*list(r.v.items())[:3], *list(r.v.items())[-12:]])
                r.m = dict([*list(r.m.items())[:3], *list(r.m.items())[-12:]])
        ctx.case({"dims": ds, "history": r.mon.log[-40:]}, [ds, r.ops])
        r.finish()
        ctx.ev("long_histories")
    finally:
        r.mon.kill()


def product(ctx, rng):
    """Tensor products of diagrams on the lower lines (all lines alike)."""
    d = int(rng.integers(2, 5))
    n = int(rng.integers(2, 5 if d == 2 else 4))
    ds = [d] * n
    r = Run(ctx, rng, ds)

    def low(lines):
        """A matrix on the lowest lines, by products and sums of gates."""
        parts = []
        for _ in range(int(rng.integers(1, 4))):
            t = int(rng.integers(lines))
            others = [q for q in gen.ints(rng.permutation(lines)) if q != t]
            cs = [(q, int(rng.integers(d))) for q in others[: int(rng.integers(0, len(others) + 1))]]
            words, m = dd.matrix(rng, d)
            if rng.random() < 0.25:
                m = np.eye(d) * complex(rng.choice([1, -1, 0.5, 1j]))
                words = ["mat", *[float(y) for x in m.reshape(-1) for y in (x.real, x.imag)]]
            k = r.slot()
            full = dd.embed([d] * lines, m, t, cs)
            r.judge(["lowgate", k, lines, t, len(cs), *[x for c in cs for x in c], *words[1:]], full)
            r.keep(r.m, k, full)
            parts.append((k, full))
        if rng.random() < 0.2:
            k = r.slot()
            r.judge(["identlow", k, lines - 1], np.eye(d**lines))
            parts.append((k, np.eye(d**lines, dtype=complex)))
        k, m = parts[0]
        for j, o in parts[1:]:
            h = r.slot()
            if rng.random() < 0.5:
                r.judge(["mm", h, k, j], m @ o)
                m = m @ o
            else:
                r.judge(["addm", h, k, j], m + o)
                m = m + o
            k = h
            r.keep(r.m, k, m)
        return k, m

    try:
        for _ in range(int(rng.integers(1, 5))):
            b = int(rng.integers(1, n))
            a = int(rng.integers(1, n - b + 1))
            (x, mx), (y, my) = low(a), low(b)
            k = r.slot()
            r.judge(["kronm", k, x, y], np.kron(mx, my))
            r.keep(r.m, k, np.kron(mx, my))
            ctx.ev("products")
            if rng.random() < 0.3:
                j = r.slot()
                r.judge(["kronm", j, x, y], np.kron(mx, my))
            if a + b < n and rng.random() < 0.5:
                z, mz = low(n - a - b)
                j = r.slot()
                r.judge(["kronm", j, z, k], np.kron(mz, np.kron(mx, my)))
            ctx.case({"dims": ds, "history": r.mon.log[-40:]}, [ds, r.mon.log[1:]])
        r.finish()
    finally:
        r.mon.kill()


def wide(ctx, rng):
    """Many lines: permutations, phases and a few superpositions, followed basis state by basis state."""
    n = int(rng.integers(7, 121))
    ds = [int(x) for x in rng.choice([2, 2, 2, 3, 3, 4, 5, 7], n)]
    r = Run(ctx, rng, ds[:1])
    r.ds = ds
    r.mon("pkg", n, *ds)
    state = {tuple([0] * n): 1.0 + 0j}
    spread = 1

    def apply(m, t, cs):
        new = {}
        for st, a in state.items():
            if all(st[q] == lev for q, lev in cs):
                for row in range(ds[t]):
                    if abs(m[row, st[t]]) > 1e-12:
                        to = (*st[:t], row, *st[t + 1 :])
                        new[to] = new.get(to, 0) + m[row, st[t]] * a
            else:
                new[st] = new.get(st, 0) + a
        return new

    try:
        r.call("quiet", 1)
        r.call("zero", 0)
        v = 0
        for _ in range(int(rng.integers(10, 60))):
            t = int(rng.integers(n))
            others = [q for q in gen.ints(rng.permutation(n)) if q != t]
            kind = str(rng.choice(["single", "controlled", "csum", "cex"]))
            k = r.slot()
            if kind == "csum":
                dag = int(rng.integers(2))
                c = others[0]
                r.call("csum", k, c, t, dag)
                state = {(*st[:t], (st[t] + (-1) ** dag * st[c]) % ds[t], *st[t + 1 :]): a for st, a in state.items()}
            elif kind == "cex":
                a, b = sorted(gen.ints(rng.permutation(ds[t])[:2]))
                lev, phi = int(rng.integers(2)), gen.angle(rng, 7)
                m = np.eye(ds[t], dtype=complex)
                m[a, a] = m[b, b] = 0
                m[a, b], m[b, a] = -1j * np.exp(-1j * phi), -1j * np.exp(1j * phi)
                r.call("cex", k, others[0], t, lev, a, b, phi, 0)
                state = apply(m, t, [(others[0], lev)])
            else:
                cs = [] if kind == "single" else [(q, int(rng.integers(min(2, ds[q])))) for q in others[: int(rng.integers(1, 4))]]
                words, m = dd.named(rng, ds[t])
                if words[0] == "pi" or (np.abs(m) > 1e-9).sum() > ds[t] and spread * ds[t] > 3000:
                    words, m = ["x", 0.0, 0.0, 0, 1], np.roll(np.eye(ds[t]), 1, 0)
                if (np.abs(m) > 1e-9).sum() > ds[t]:
                    spread *= ds[t]
                r.call("gate", k, t, len(cs), *[x for c in cs for x in c], *words)
                state = apply(m, t, cs)
            w = r.slot()
            r.call("mv", w, k, v)
            v = w
        ctx.case({"dims": ds, "history": r.mon.log[-60:]}, [ds, r.mon.log[3:]])
        sup = list(state)
        for st in [*[sup[int(i)] for i in rng.integers(len(sup), size=12)], *[tuple(int(rng.integers(d)) for d in ds) for _ in range(4)]]:
            want = state.get(st, 0)
            if abs(want) > 1e-9 or want == 0:
                r.judge(["path", v, *reversed(st)], want)
        w, norm = r.slot(), sum(abs(a) ** 2 for a in state.values())
        r.judge(["fid", v, v], norm**2, tol=1e-7)
        r.call("basis", w, *sup[0])
        r.judge(["inner", w, v], np.conj(state[sup[0]]))
        ctx.mx("widest", n)
        ctx.ev("wide_circuits")
        ctx.mx("basis_states", len(state))
        t = r.call("tables")
        ctx.check(t[0] == t[1], "the tables hold other nodes than they count", got=t)
        ctx.check(r.call("cache")[0] == 0, "numbers taken from the cache are not given back", history=r.mon.log[-30:], dims=ds)
    finally:
        r.mon.kill()


def large(ctx, rng):
    """Lines of many levels."""
    while True:
        ds = [int(x) for x in rng.integers(2, 40, int(rng.integers(1, 4)))]
        if max(ds) >= 8 and np.prod(ds) <= 100:
            break
    r = Run(ctx, rng, ds)
    try:
        for _ in range(int(rng.integers(8, 20))):
            r.step()
        ctx.case({"dims": ds, "history": r.mon.log[-40:]}, [ds, r.ops])
        r.finish()
        ctx.ev("many_levels")
    finally:
        r.mon.kill()


def tiny(ctx, rng):
    """Weights around and below the square root of the tolerance of the tables, beside zeros and ones."""
    while True:
        ds = [int(x) for x in rng.integers(2, 6, int(rng.integers(1, 5)))]
        if np.prod(ds) <= 64:
            break
    r = Run(ctx, rng, ds)

    def words(m):
        return ["mat", *[float(y) for x in np.asarray(m, dtype=complex).reshape(-1) for y in (x.real, x.imag)]]

    try:
        r.call("tiny", 1)
        k = r.slot()
        st = [int(rng.integers(d)) for d in ds]
        r.call("basis", k, *st)
        x = dd.basis(ds, st)
        old = []
        for _ in range(int(rng.integers(4, 16))):
            t = int(rng.integers(len(ds)))
            d = ds[t]
            others = [q for q in gen.ints(rng.permutation(len(ds))) if q != t]
            cs = [(q, int(rng.integers(ds[q]))) for q in others[: int(rng.integers(0, len(others) + 1))]] if rng.random() < 0.5 else []
            kind = rng.random()
            if kind < 0.5:  # a rotation that hardly rotates
                a, b = gen.ints(rng.permutation(d)[:2])
                e, phi = 10 ** rng.uniform(-8, -3), rng.uniform(0, 7)
                m = np.eye(d, dtype=complex)
                m[a, a] = m[b, b] = np.cos(e)
                m[a, b], m[b, a] = -1j * np.sin(e) * np.exp(-1j * phi), -1j * np.sin(e) * np.exp(1j * phi)
                ctx.ev("tiny_rotations")
            elif kind < 0.8:
                m = np.eye(d)[gen.ints(rng.permutation(d))] * np.exp(1j * rng.uniform(0, 7))
            elif kind < 0.9:  # keeps only the parts that are small
                a = int(rng.integers(d))
                m = np.eye(d)
                m[a, a] = 0
            else:
                m = dd.named_matrix("h", d)
            g, u = r.slot(), dd.embed(ds, m, t, cs)
            if 0 < np.abs(u @ x).max() < 1e-9:
                continue
            r.judge(["gate", g, t, len(cs), *[y for c in cs for y in c], *words(m)], u, tol=1e-11)
            if old and rng.random() < 0.3:
                o, w = old[int(rng.integers(len(old)))]
                h = r.slot()
                if np.abs(u @ w).max() > 1e-9 or not np.any(u @ w):
                    r.judge(["mm", h, g, o], u @ w, tol=1e-11)
            old.append((g, u))
            j = r.slot()
            r.judge(["mv", j, g, k], u @ x, tol=1e-11)
            if rng.random() < 0.3:
                h = r.slot()
                r.judge(["addv", h, j, k], u @ x + x, tol=1e-11)
            k, x = j, u @ x
            if not np.any(x):
                break
        ctx.case({"dims": ds, "history": r.mon.log[-40:]}, [ds, r.ops])
        r.finish()
        ctx.ev("tiny_histories")
    finally:
        r.mon.kill()


def numbers(ctx, rng):
    """The table of numbers returns what was stored, up to its tolerance, and always the same entry."""
    r = Run(ctx, rng, [2, 3])
    try:
        for i in range(60):
            t = rng.random()
            if t < 0.2:
                z = complex(*rng.choice([0, 1, -1, np.sqrt(0.5), -np.sqrt(0.5), 0.5, 1e-14, -1e-14, 1 - 1e-14, 0.25, 1 / 3], 2))
            elif t < 0.4:  # near something stored
                z = (last if i else 0.3) * (1 + 1e-15 * complex(rng.normal(), rng.normal()))
            elif t < 0.7:
                z = np.exp(1j * rng.uniform(0, 7)) * rng.random()
            else:  # at the borders of the buckets
                z = complex(*((rng.integers(0, 131073, 2) / 2 + rng.normal(0, 1e-9, 2)) / 65536))
            last = z
            r.judge(["value", float(z.real), float(z.imag)], z, tol=1e-12)
        for _ in range(60):
            # numbers on both sides of the border of two buckets, others of the same buckets before them
            edge = (int(rng.integers(1, 65536)) + 0.5) / 65536 if rng.random() < 0.8 else int(rng.integers(1, 65536)) / 65536
            zs = [edge + float(rng.choice([-1, 1])) * 10.0 ** float(rng.uniform(-9, -5.3)) for _ in range(int(rng.integers(0, 4)))]
            zs += [edge + float(x) * 1e-13 for x in rng.uniform(-1, 1, int(rng.integers(2, 5)))]
            zs = [complex(x, float(rng.choice([0, 0.5, -x]))) for x in zs]
            r.judge(["near", len(zs), *[y for x in zs for y in (x.real, x.imag)]], zs, tol=1e-12)
            ctx.ev("borders")
        for n in (int(rng.integers(5, 60)), int(rng.integers(200, 2500))):
            got = r.call("numbers", int(rng.integers(2**31)), n)[0]
            ctx.ev("referenced_numbers", int(got.real))
            ctx.ev("collected_numbers", int(got.imag))
        for i in range(6):
            r.judge(["repr", i, 6], [i // 2, i % 2])
        r.ctx.case({"numbers": r.mon.log[-60:]}, r.mon.log)
        r.finish()
    finally:
        r.mon.kill()


def upper(ctx, rng):
    """Diagrams of the upper lines only, built beside ones of all lines and of the lower lines."""
    while True:
        ds = [int(x) for x in rng.integers(2, 5, int(rng.integers(2, 6)))]
        if np.prod(ds) <= 48:
            break
    r = Run(ctx, rng, ds)
    base = int(rng.integers(1, len(ds)))
    up = [1] * base + ds[base:]
    size = int(np.prod(up))
    v, m = {}, {}

    def gate(lines, first):
        t = int(rng.integers(first, lines))
        others = [q for q in gen.ints(rng.permutation(lines)) if q != t and q >= first]
        cs = [(q, int(rng.integers(ds[q]))) for q in others[: int(rng.integers(0, len(others) + 1))]]
        words, u = dd.matrix(rng, ds[t])
        if rng.random() < 0.2:
            u = np.eye(ds[t], dtype=complex)
            words = ["mat", *[float(y) for x in u.reshape(-1) for y in (x.real, x.imag)]]
        return t, cs, words, u

    def store(table, k, x):
        if 1e-3 < np.abs(x).max() < 1e3:
            table[k] = x

    try:
        for _ in range(int(rng.integers(8, 40))):
            k = r.slot()
            p = rng.random()
            if p < 0.15:  # something of the lower lines
                lines = int(rng.integers(1, len(ds) + 1))
                r.call("up", 0)
                if rng.random() < 0.5:
                    r.judge(["identlow", k, lines - 1], np.eye(int(np.prod(ds[:lines]))))
                else:
                    t, cs, words, u = gate(lines, 0)
                    r.judge(["lowgate", k, lines, t, len(cs), *[x for c in cs for x in c], *words[1:]], dd.embed(ds[:lines], u, t, cs))
                r.call("drop", k)
                ctx.ev("lower_between")
                continue
            r.call("up", base)
            ctx.ev("upper_operations")
            if p < 0.3 or not v:
                if rng.random() < 0.3:
                    r.judge(["zero", k], dd.basis(up, [0] * len(ds)))
                    v[k] = dd.basis(up, [0] * len(ds))
                else:
                    st = [0] * base + [int(rng.integers(d)) for d in ds[base:]]
                    r.judge(["basis", k, *st[base:]], dd.basis(up, st))
                    v[k] = dd.basis(up, st)
            elif p < 0.4:
                r.judge(["ident", k], np.eye(size))
                m[k] = np.eye(size, dtype=complex)
                ctx.ev("upper_identities")
            elif p < 0.6 or not m:
                t, cs, words, u = gate(len(ds), base)
                full = dd.embed(up, u, t, cs)
                r.judge(["gate", k, t, len(cs), *[x for c in cs for x in c], *words], full)
                store(m, k, full)
            else:
                a, b = r.pick(m), r.pick(m)
                x, y = r.pick(v), r.pick(v)
                op = str(rng.choice(["mv", "mv", "mm", "mm", "addv", "addm", "ct", "tr"]))
                table, words, want = {"mv": (v, [a, x], m[a] @ v[x]), "mm": (m, [a, b], m[a] @ m[b]), "addv": (v, [x, y], v[x] + v[y]), "addm": (m, [a, b], m[a] + m[b]),
                                      "ct": (m, [a], m[a].conj().T), "tr": (m, [a], m[a].T)}[op]
                if np.abs(want).max() > 1e-6:
                    r.judge([op, k, *words], want)
                    store(table, k, want)
        ctx.case({"dims": ds, "from": base, "history": r.mon.log[-60:]}, [ds, base, r.ops])
        r.call("up", base)
        r.v, r.m = v, m
        for k in [k for k in range(1, r.next + 1) if k not in v and k not in m]:
            r.call("drop", k)
        r.finish()
        ctx.ev("upper_histories")
    finally:
        r.mon.kill()


KINDS = {"upper": {"fn": upper, "quick": 120, "thorough": 2500}, "large": {"fn": large, "quick": 30, "thorough": 500}, "tiny": {"fn": tiny, "quick": 150, "thorough": 3000}, "wide": {"fn": wide, "quick": 60, "thorough": 1500}, "long": {"fn": long, "quick": 12, "thorough": 200}, "product": {"fn": product, "quick": 60, "thorough": 1000}, "fives": {"fn": fives, "quick": 25, "thorough": 600}, "numbers": {"fn": numbers, "quick": 20, "thorough": 300}, "history": {"fn": history, "quick": 300, "thorough": 5000}}
PROBES: list = []
REQUIRED = {"gate": 500, "controlled_gates": 60, "mv": 300, "mm": 150, "addv": 100, "addm": 100, "ct": 40, "tr": 40, "inner": 40, "fid": 40, "cex": 20,
            "csum": 20, "spread": 10, "spread_over_five": 15, "kronm": 60, "path": 30, "mpath": 30, "spath": 30, "smpath": 30, "value": 500, "borders": 500, "referenced_numbers": 200, "collected_numbers": 1000, "node_counts": 40, "minimal_diagrams": 40,
            "repeated_products": 40, "cancellations": 40, "rechecked_diagrams": 1000, "nodes_walked": 5000, "long_histories": 3, "wide_circuits": 30, "sharing_checked": 3, "#gates": 40,
            "many_levels": 15, "upper_operations": 600, "upper_identities": 40, "lower_between": 80, "upper_histories": 60, "tiny_rotations": 200, "tiny_histories": 60}
ASSUMPTIONS = [
    "the oracle multiplies dense matrices with numpy; deviations below 1e-8 (times the largest entry) are the tolerance of the tables and are accepted",
    "tensor products are only asked of lines of the same dimension, which is what the package numbers them by",
    "diagrams whose largest entry leaves [1e-3, 1e3] are not used further, because entries below the table's tolerance are rounded to zero by design",
]
NEEDS_BINDINGS = False
