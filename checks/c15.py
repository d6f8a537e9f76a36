"""C15: the decision diagram of a state represents that state, before and after sharing and approximation."""
from __future__ import annotations

import copy

import numpy as np

from checks import c14
from lib import gen

PID = "C15"
RULE = (
    "random amplitude vector (dense, sparse, structured with equal and empty branches, products, tiny amplitudes) on 1..5 qudits "
    "turned into a decision tree, shared, cut and normalised; distinct by dimensions, kind and pattern of zeros; each case walks "
    "every path of the diagram"
)
TOL = 1e-9


def amplitudes(node, dims, depth=0):
    """Amplitudes below a node, without its own weight."""
    n = int(np.prod(dims[depth:])) if depth < len(dims) else 1
    if depth == len(dims):
        return np.ones(1, dtype=complex)
    if node.terminal or len(node.children) != dims[depth]:
        return np.zeros(n, dtype=complex)
    return np.concatenate([c.weight * amplitudes(c, dims, depth + 1) for c in node.children])


def inner(node, dims, depth=0):
    """(node, depth) of all nodes with branches."""
    if depth == len(dims) or node.terminal:
        return
    yield node, depth
    for c in node.children:
        yield from inner(c, dims, depth + 1)


def make(ctx, rng):
    dims = gen.dims(rng, 5, 5, 64)
    style = str(rng.choice(c14.STYLES[:9]))
    v = c14.target(rng, dims, style)
    if v is None:
        v, style = c14.named(dims, "ghz"), "ghz"
    if rng.random() < 0.2:
        v = v * rng.uniform(0.2, 3)
    ctx.case({"dims": dims, "style": style, "state": np.round(v, 6)}, [dims, style, (np.abs(v) > 1e-9).astype(int).tolist()])
    return dims, style, np.asarray(v, dtype=complex)


def tree(ctx, rng):
    from mqt.qudits.core import micro_dd as m

    dims, style, v = make(ctx, rng)
    labels = list(range(len(dims)))
    keep = v.copy()
    root, number = m.create_decision_tree(labels, list(dims), v)
    full = root.weight * amplitudes(root, dims)
    ctx.check(np.abs(full - v).max() < TOL, "the tree holds other amplitudes than the state", dims=dims, style=style, got=np.round(full, 4), want=np.round(v, 4))
    ctx.check(np.array_equal(v, keep), "building the tree changes the state it is given")
    want = sum(int(np.prod(dims[:k])) for k in range(len(dims) + 1))
    ctx.check(number[0] == want, "the number of nodes is wrong", got=number, want=want)
    for node, depth in inner(root, dims):
        ctx.check(abs(sum(abs(c.weight) ** 2 for c in node.children) - 1) < TOL, "the weights below a node are not normalised", depth=depth)
        ctx.check(all(c.value == labels[depth] for c in node.children), "a branch carries another qudit's label")
        ctx.ev("nodes")
    # contributions: the probability of reaching a node
    cont = m.get_node_contributions(root, labels)
    total = float(np.sum(np.abs(v) ** 2))
    for level in range(len(dims)):
        k = int(np.prod(dims[: level + 1]))
        mass = np.sort(np.sum(np.abs(v.reshape(k, -1)) ** 2, axis=1))
        mass = mass[mass > 0]
        got = [float(p) for _n, p in cont[level]]
        ctx.check(got == sorted(got), "contributions are not in ascending order")
        ctx.check(len(got) == len(mass) and np.abs(np.sort(got) - mass).max(initial=0) < TOL * max(1, total), "contributions are not the probabilities of the branches", level=level, got=got, want=mass)
        ctx.ev("contributions", len(got))
    ctx.ev("trees")


def sharing(ctx, rng):
    from mqt.qudits.core import micro_dd as m

    dims, style, v = make(ctx, rng)
    labels = list(range(len(dims)))
    root, _ = m.create_decision_tree(labels, list(dims), v)
    before = root.weight * amplitudes(root, dims)
    r = m.dd_reduction(root, list(dims))
    ctx.check(r is root, "sharing returns another diagram")
    ctx.check(np.abs(root.weight * amplitudes(root, dims) - before).max() < TOL, "sharing changes the amplitudes", dims=dims)

    def visit(node, depth):
        if depth == len(dims) or node.terminal:
            return 1
        ctx.check(len(node.children_index) == dims[depth], "a node does not say which branches are shared", depth=depth, got=node.children_index)
        subs = [amplitudes(c, dims, depth + 1) for c in node.children]
        for i, j in enumerate(node.children_index):
            ctx.check(0 <= j <= i and node.children_index[j] == j, "a branch is shared with one that is itself shared", got=node.children_index)
            ctx.check(np.abs(subs[i] - subs[j]).max() < TOL, "different branches are shared", depth=depth, dims=dims, style=style, index=node.children_index, a=np.round(subs[i], 4), b=np.round(subs[j], 4))
            ctx.ev("branches")
            if i != j:
                ctx.ev("shared")
            for k in range(i):
                same = np.array_equal(subs[i], subs[k]) and node.children[i].terminal == node.children[k].terminal
                if same and depth + 1 < len(dims):
                    ctx.check(node.children_index[i] == node.children_index[k], "equal branches are not shared", depth=depth, index=node.children_index)
        reached = [i for i in range(dims[depth]) if abs(node.children[i].weight) != 0]
        one = len(reached) > 1 and len({node.children_index[i] for i in reached}) == 1
        ctx.check(bool(node.reduced) == one, "a node is wrong about whether all its branches are the same", depth=depth, index=node.children_index, reached=reached, reduced=node.reduced)
        if node.reduced:
            ctx.ev("reduced")
            return 1 + visit(node.children[reached[0]], depth + 1)
        # only the branches that stand for themselves were worked on
        return 1 + sum(visit(node.children[j], depth + 1) for j in node.children_index)

    want = visit(root, 0)
    counter = [0]
    m.count_nodes_after(root, counter, list(dims))
    ctx.check(counter[0] == want, "the count of nodes after sharing is wrong", got=counter, want=want, dims=dims, style=style)
    ctx.ev("sharings")


def cutting(ctx, rng):
    from mqt.qudits.core import micro_dd as m

    dims, style, v = make(ctx, rng)
    v = v / np.linalg.norm(v)
    labels = list(range(len(dims)))
    tol = float(rng.choice([0.001, 0.01, 0.05, 0.2, 0.5]))
    root, _ = m.create_decision_tree(labels, list(dims), v)
    m.cut_branches(m.get_node_contributions(root, labels), tol)
    m.normalize_all(root, list(dims))
    after = root.weight * amplitudes(root, dims)
    kept = np.abs(after) > 0
    ctx.check(np.abs(after[kept] - v[kept]).max(initial=0) < TOL, "cutting branches changes amplitudes it keeps", dims=dims, style=style, tol=tol)
    lost = float(np.sum(np.abs(v[~kept]) ** 2))
    ctx.check(lost <= tol + TOL, f"cutting removes {lost:.4f} of the probability, {tol} are allowed", dims=dims, style=style)
    for node, depth in inner(root, dims):
        if node.weight != 0:
            ctx.check(abs(sum(abs(c.weight) ** 2 for c in node.children) - 1) < TOL, "weights are not normalised after cutting", depth=depth)
            ctx.ev("nodes_after_cut")
    smallest = np.min(np.abs(v[np.abs(v) > 0]) ** 2)
    if smallest < tol * 0.999:
        ctx.check(lost > 0, "nothing is cut although a branch is small enough", tol=tol, smallest=smallest)
        ctx.ev("cut")
    ctx.mx("lost", lost)
    ctx.ev("cuttings")


def approximation(ctx, rng):
    from mqt.qudits.core import micro_dd as m

    dims, style, v = make(ctx, rng)
    tol = float(rng.choice([0.001, 0.01, 0.05]))
    root, _ = m.create_decision_tree(list(range(len(dims))), list(dims), v)
    orig = copy.deepcopy(root)

    def small(node, depth):
        """Amplitudes that lie behind a branch below the threshold."""
        n = int(np.prod(dims[depth:])) if depth < len(dims) else 1
        if depth == len(dims) or node.terminal or len(node.children) != dims[depth]:
            return np.zeros(n, dtype=bool)
        return np.concatenate([
            np.ones(n // dims[depth], dtype=bool) if abs(c.weight) ** 2 < tol else small(c, depth + 1) for c in node.children
        ])

    cut = small(orig, 0)
    m.dd_approximation(root, list(dims), tol)
    after = root.weight * amplitudes(root, dims)
    want = np.where(cut, 0, v)
    ctx.check(np.abs(after - want).max() < TOL * max(1, np.abs(v).max()), "approximation does not remove exactly the branches below the threshold", dims=dims, style=style, tol=tol, got=np.round(after, 4), want=np.round(want, 4))
    ctx.ev("approximations")
    if (cut & (np.abs(v) > 0)).any():
        ctx.ev("approximated")


KINDS = {
    "tree": {"fn": tree, "quick": 700, "thorough": 15000},
    "sharing": {"fn": sharing, "quick": 1200, "thorough": 25000},
    "cutting": {"fn": cutting, "quick": 700, "thorough": 15000},
    "approximation": {"fn": approximation, "quick": 400, "thorough": 8000},
}
REQUIRED = {"trees": 150, "nodes": 1000, "contributions": 1000, "sharings": 200, "shared": 200, "reduced": 60, "cuttings": 150, "cut": 60, "approximations": 80, "approximated": 15}
ASSUMPTIONS = ["numpy's dense complex arithmetic", "branches are equal when they were computed from equal numbers"]
BUDGET = {"quick": 60, "thorough": 500}
