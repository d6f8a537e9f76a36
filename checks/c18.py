"""C18: level graphs keep describing the device while levels are placed elsewhere, and routing does what its pulses do."""
from __future__ import annotations

import copy

import numpy as np

from lib import device, gen, ref

PID = "C18"
RULE = (
    "random connected level graph with placement, starting levels and stored phases, put through random sequences of swaps, routings and "
    "queries; random search trees; distinct by graph and sequence; each case compares with a plain-data model of the device"
)


def snap(g):
    """The graph as plain data, by logical level."""
    nodes = {n: dict(a) for n, a in g.nodes(data=True)}
    edges = {frozenset((a, b)): dict(d) for a, b, d in g.edges(data=True)}
    return nodes, edges


def physical(g):
    """The device behind the graph: couplings, starting levels and stored phases by physical level."""
    nodes, edges = snap(g)
    m = {n: a["lpmap"] for n, a in nodes.items()}
    return (
        {m[n]: {k: v for k, v in a.items() if k != "lpmap"} for n, a in nodes.items()},
        {frozenset(m[x] for x in e): d for e, d in edges.items()},
    )


def bfs(edges, nodes, a):
    dist = {a: 0}
    todo = [a]
    while todo:
        x = todo.pop(0)
        for e in edges:
            if x in e:
                y = next(z for z in e if z != x)
                if y not in dist:
                    dist[y] = dist[x] + 1
                    todo.append(y)
    return dist


def make(rng, dmax=7):
    d = int(rng.integers(2, dmax + 1))
    data = device.random_graph(rng, d)
    g = device.graph(data)
    phases = bool(rng.random() < 0.7)
    if phases:
        g.phase_storing_setup()
        if rng.random() < 0.7:
            for n in g.nodes:
                g.nodes[n]["phase_storage"] = float(rng.choice([0.0, np.pi, -np.pi / 2, rng.uniform(-6, 6)]))
    return d, data, g, phases


def queries(ctx, g, data, d):
    nodes, edges = snap(g)
    init = [n for n in range(d) if nodes[n]["level"] == "i"]
    other = [n for n in range(d) if nodes[n]["level"] == "r"]
    ctx.check(g.log_phy_map == [nodes[n]["lpmap"] for n in g.nodes], "the placement is listed wrongly", got=g.log_phy_map)
    ctx.check(nodes[g.fst_inode]["level"] == "i" and (not other or nodes[g.fst_rnode]["level"] == "r"), "the first starting level is none")
    ctx.check([g.is_inode(n) for n in range(d)] == [n in init for n in range(d)] and [g.is_irnode(n) for n in range(d)] == [n in other for n in range(d)],
              "levels are told apart wrongly", init=init, graph=data)
    for a in range(d):
        dist = bfs(edges, nodes, a)
        for b in range(d):
            ctx.check(g.distance_nodes(a, b) == dist[b], "the distance of two levels is wrong", a=a, b=b, got=g.distance_nodes(a, b), want=dist[b], graph=data)
            ctx.check(a == b or g.distance_nodes_pi_pulses_fixed_ancilla(a, b) == dist[b] - 1, "the pulses between two levels are miscounted", a=a, b=b, graph=data)
        s = sum(x["sensitivity"] for e, x in edges.items() if a in e)
        ctx.check(g.get_node_sensitivity_cost(a) == s, "the sensitivity of a level is wrong", level=a, got=g.get_node_sensitivity_cost(a), want=s)
    for e, x in edges.items():
        a, b = sorted(e)
        ctx.check(g.get_edge_sensitivity(a, b) == x["sensitivity"] == g.get_edge_sensitivity(b, a), "the sensitivity of a coupling is wrong")
    ctx.ev("queries")


def swaps(ctx, rng):
    d, data, g, phases = make(rng)
    moves = [gen.ints(rng.permutation(d)[:2]) for _ in range(int(rng.integers(1, 8)))]
    ctx.case({"graph": data, "moves": moves, "phases": phases}, [data["edges"], data["map"], moves])
    nodes, edges = snap(g)
    for n in range(d):
        ctx.check(nodes[n]["lpmap"] == data["map"][n], "a level is placed elsewhere than asked for", graph=data)
        ctx.check(nodes[n]["level"] == ("i" if n in data["init"] else "r"), "a starting level is forgotten", graph=data)
    ctx.check(edges == {frozenset(e[:2]): {"delta_m": 0, "sensitivity": e[2]} for e in data["edges"]}, "the couplings are not the given ones", graph=data)
    queries(ctx, g, data, d)
    world = physical(g)
    chain = [(g, copy.deepcopy(snap(g)))]
    for a, b in moves:
        old, new = chain[-1][0], chain[-1][0].swap_nodes(a, b)
        on, oe = snap(old)
        nn, ne = snap(new)
        ctx.check(new is not old and sorted(nn) == list(range(d)), "a swap loses levels", graph=data)
        for n in range(d):
            src = {a: b, b: a}.get(n, n)
            ctx.check(nn[n] == on[src], "a swap moves other levels than the two named", graph=data, swap=[a, b], level=n, got=nn[n], want=on[src])
        ren = {a: b, b: a}
        ctx.check(ne == {frozenset(ren.get(x, x) for x in e): v for e, v in oe.items()}, "a swap changes the couplings", graph=data, swap=[a, b])
        ctx.check(physical(new) == world, "a swap changes the physical device", graph=data, swap=[a, b])
        queries(ctx, new, data, d)
        chain.append((new, copy.deepcopy(snap(new))))
        ctx.ev("swaps")
    for k, (x, s) in enumerate(chain):
        ctx.check(snap(x) == s, "a later swap changes an earlier graph", graph=data, moves=moves, graph_number=k)
    back = chain[-1][0]
    for a, b in reversed(moves):
        back = back.swap_nodes(a, b)
    ctx.check(snap(back) == snap(g), "undoing all swaps does not restore the graph", graph=data, moves=moves)
    if phases:
        a, b = moves[0]
        before, be = snap(g)
        g.swap_node_attr_simple(a, b)
        after, ae = snap(g)
        ren = {a: b, b: a}
        for n in range(d):
            want = {**before[n], "phase_storage": before[ren.get(n, n)]["phase_storage"]}
            ctx.check(after[n] == want, "swapping stored phases changes something else", graph=data, swap=[a, b])
        ctx.check(ae == be, "swapping stored phases changes couplings")
        ctx.ev("phase_swaps")


def phases_out(ctx, rng):
    """The gates for the stored phases undo nothing and forget nothing."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    d, data, g, _ = make(rng)
    g.phase_storing_setup()
    n = int(rng.integers(1, 4))
    q = int(rng.integers(n))
    dims = gen.ints(rng.integers(2, 4, n))
    dims[q] = d
    g.set_circuit(QuantumCircuit(n, dims, 0))
    g.set_qudits_index(q)
    for k in range(d):
        if rng.random() < 0.6:
            g.nodes[k]["phase_storage"] = float(rng.choice([rng.uniform(-7, 7), 2 * np.pi, -np.pi, 1e-2, -1e-2]))
    ctx.case({"graph": data, "phases": [g.nodes[k]["phase_storage"] for k in range(d)], "line": q, "dims": dims})
    gates = g.get_vrz_gates()
    u = np.eye(d, dtype=complex)
    for x in gates:
        ctx.check(x.reference_lines == [q] and x.dimensions == d, "a stored phase is put on another line", got=x.reference_lines, line=q)
        u = np.asarray(x.to_matrix(0)) @ u
    want = np.ones(d, dtype=complex)
    for k in range(d):
        want[g.nodes[k]["lpmap"]] = np.exp(-1j * g.nodes[k]["phase_storage"])
    e = ref.dist(u, np.diag(want))
    # phases below 1e-3 are left out
    ctx.check(e < 2e-3, f"the gates for the stored phases are off by {e:.3g}", graph=data)
    ctx.ev("stored_phases", len(gates))


def phase_rules(ctx, rng):
    """Phases in store meet pulses: a rotation asked for is turned by them, a pulse of half a turn takes them along."""
    from mqt.qudits.compiler.onedit.local_operation_swap import graph_rule_ongate, graph_rule_update
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.gates import R

    d, data, g, phases = make(rng)
    qc = QuantumCircuit(2, [2, d], 0)

    def stored(sign=1):
        v = np.ones(d, dtype=complex)
        for _, a in g.nodes(data=True):
            v[a["lpmap"]] = np.exp(1j * sign * a.get("phase_storage", 0.0))
        return np.diag(v)

    for _ in range(int(rng.integers(0, 3))):
        g = g.swap_nodes(*gen.ints(rng.permutation(d)[:2]))
    ctx.case({"graph": data, "phases": [a.get("phase_storage") for _, a in g.nodes(data=True)], "at": g.log_phy_map})
    for _ in range(int(rng.integers(1, 6))):
        a, b = gen.ints(rng.permutation(d)[:2])
        before = snap(g)
        if rng.random() < 0.5:
            x = R(qc, "R", 1, [a, b, gen.angle(rng, 3), gen.angle(rng, 7)], d)
            u = np.asarray(x.to_matrix(0))
            y = graph_rule_ongate(x, g)
            e = ref.dist(np.asarray(y.to_matrix(0)), stored() @ u @ stored(-1))
            ctx.check(e < 1e-9, f"a rotation is not turned by the phases in store, off by {e:.3g}", levels=[a, b], graph=data)
            ctx.check({y.lev_a, y.lev_b} == {a, b} and y.theta == x.theta and y.reference_lines == [1] and y.dimensions == d,
                      "turning a rotation by the phases in store changes more than its axis", levels=[a, b])
            ctx.check(snap(g) == before and ref.dist(np.asarray(x.to_matrix(0)), u) < 1e-12, "turning a rotation changes it or the graph", graph=data)
            ctx.ev("turned")
            continue
        half = bool(rng.random() < 0.7)
        theta = float(rng.choice([np.pi, -np.pi]) if half else rng.choice([np.pi / 2, 1.0, np.pi + 0.05, -np.pi + 0.05, 2 * np.pi, rng.uniform(0.3, 2.9)]))
        x = R(qc, "R", 1, [a, b, theta, float(rng.choice([np.pi / 2, -np.pi / 2, 3 * np.pi / 2, -3 * np.pi / 2, 5 * np.pi / 2]))], d)
        u = np.asarray(x.to_matrix(0))
        pre = stored()
        graph_rule_update(x, g)
        after = snap(g)
        if half and phases:
            s = np.eye(d)
            s[[a, b]] = s[[b, a]]
            e = ref.dist(pre @ u, s @ stored())
            ctx.check(e < 1e-9, f"the phases in store after a pulse of half a turn are not those it leaves behind, off by {e:.3g}", levels=[a, b],
                      angles=[x.theta, x.phi], graph=data)
            strip = lambda sn: ({n: {k: v for k, v in w.items() if k != "phase_storage"} for n, w in sn[0].items()}, sn[1])  # noqa: E731
            ctx.check(strip(after) == strip(before), "keeping the phases of a pulse changes something else of the graph", graph=data)
            ctx.ev("taken_along")
        else:
            ctx.check(after == before, "a pulse which moves no level, or a graph without phases, changes the phases in store", levels=[a, b], angles=[x.theta, x.phi])
            ctx.ev("left_alone")


def routing(ctx, rng):
    from mqt.qudits.compiler.compilation_minitools import rotation_cost_calc
    from mqt.qudits.compiler.onedit.local_operation_swap import cost_calculator
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.gates import R

    d, data, g, phases = make(rng)
    a, b = gen.ints(rng.permutation(d)[:2])
    theta, phi = gen.angle(rng), gen.angle(rng, 7)
    nz = int(rng.integers(1, 6))
    ctx.case({"graph": data, "levels": [a, b], "theta": theta, "phi": phi, "phases": phases}, [data["edges"], data["map"], a, b, phases])
    circ = QuantumCircuit(1, [d], 0)
    gate = R(circ, "R", 0, [a, b, theta, phi], d)
    before = copy.deepcopy(snap(g))
    world = physical(g)
    total, pulses, new, cpi, cg = cost_calculator(gate, g, nz)
    ctx.check(snap(g) == before, "routing changes the graph it is given", graph=data)
    ctx.check(physical(new)[1] == world[1], "routing changes the couplings of the device", graph=data)
    dist = bfs(before[1], before[0], a)[b]
    ctx.check(len(pulses) == dist - 1, "routing takes another number of pulses than levels lie between", got=len(pulses), want=dist - 1, graph=data)
    ctx.check(new.has_edge(a, b), "the routed levels are not coupled", graph=data, levels=[a, b])
    u = np.eye(d, dtype=complex)
    for p in pulses:
        ctx.check(frozenset((p.lev_a, p.lev_b)) in world[1], "routing drives levels the device does not couple", levels=[p.lev_a, p.lev_b], graph=data)
        ctx.check(abs(abs(p.theta) - np.pi) < 1e-6, "a routing pulse is no full exchange", theta=p.theta)
        u = np.asarray(p.to_matrix(0)) @ u
        ctx.ev("pulses")
    old_map, new_map = [before[0][k]["lpmap"] for k in range(d)], new.log_phy_map
    ctx.check(sorted(new_map) == sorted(old_map), "the placement after routing is no permutation", got=new_map)
    for k in range(d):
        amp = abs(u[new_map[k], old_map[k]])
        ctx.check(abs(amp - 1) < 1e-9, "the placement after routing is not where the pulses put the levels", level=k, before=old_map, after=new_map, graph=data)
    ctx.check(cpi >= 0 and cg >= 0 and abs(total - (cpi + cg) * nz) < 1e-9 and (cpi > 0) == (len(pulses) > 0), "the cost is not that of its parts", total=total, routing=cpi, gate=cg, times=nz)
    ctx.check(abs(cg - rotation_cost_calc(gate, new)) < 1e-12, "the cost of the rotation is another one in the new placement")
    # an excited level costs more, the farther it is from the starting level
    nodes, edges = snap(new)
    if nodes[a]["level"] == "r" or nodes[b]["level"] == "r":
        f = bfs(edges, nodes, new.fst_inode)
        t = abs(gate.theta / np.pi)
        base = (4 * t + abs(np.mod(t + 0.25, 0.5) - 0.25)) * 1e-4
        ctx.check(abs(cg - (min(f[a], f[b]) + 1) * base) < 1e-9, "the cost of a rotation does not follow its distance from the starting level", got=cg, graph=data)
        ctx.ev("distant_costs")
    if dist > 1:
        ctx.ev("routed")
    ctx.seen("distance", dist)


def devices(ctx):
    """The fake machines are what they say: connected graphs, placements, and each request gives the same graph."""
    import networkx as nx

    for name in [*device.FAKE, "innsbruck01"]:
        be, other = device.backend(name), device.backend(name)
        ctx.case({"device": name})
        gs = be.energy_level_graphs
        ctx.check(len(gs) >= 2 and be.energy_level_graphs[0] is gs[0], "the level graphs of a device are made anew on each request", device=name)
        ctx.check(all(x is not y for x, y in zip(gs, other.energy_level_graphs)), "two devices share level graphs", device=name)
        for g, h in zip(gs, other.energy_level_graphs):
            ctx.check(nx.is_connected(g) and sorted(g.log_phy_map) == sorted(g.nodes), "a device has unreachable levels or no placement", device=name)
            ctx.check(snap(g) == snap(h), "two devices of the same name differ", device=name)
            ctx.check(bool(nx.get_node_attributes(g, "level")), "a device has no starting level", device=name)
        gs[0].nodes[0]["lpmap"] = 7
        ctx.check(other.energy_level_graphs[0].nodes[0]["lpmap"] != 7, "changing one device changes another", device=name)
        ctx.ev("devices")


def trees(ctx, rng):
    """The search tree returns the cheapest finished branch."""
    from mqt.qudits.core import NAryTree
    from mqt.qudits.exceptions import NodeNotFoundError

    n = int(rng.integers(1, 30))
    parents = [None] + [int(rng.integers(max(0, k - int(rng.integers(1, 6))), k)) for k in range(1, n)]
    cost = [float(np.round(rng.random(), 3)) for _ in range(n)]
    leaves = [k for k in range(n) if k not in parents]
    done = [k for k in leaves if rng.random() < 0.5]
    keys = gen.ints(rng.permutation(100)[:n])
    ctx.case({"parents": parents, "cost": cost, "finished": done}, [parents, done])
    t = NAryTree()
    ctx.check(t.is_empty(), "a new tree is not empty")
    for k in range(n):
        t.add(keys[k], None, np.eye(2), f"graph{k}", cost[k], cost[k] / 2, (1, 1), [], None if k == 0 else keys[parents[k]])
    node = [t.find_node(t.root, keys[k]) for k in range(n)]
    ctx.check([x.key for x in node] == keys and len({id(x) for x in node}) == n, "the tree finds other nodes than asked for")
    ctx.check(t.find_node(t.root, 1000) is None, "the tree finds a node that is not there")
    try:
        t.add(1001, None, np.eye(2), "", 0, 0, (1, 1), [], 1000)
        ctx.fail("a node is added below a parent that does not exist")
    except NodeNotFoundError:
        pass
    ctx.check(t.total_size == n, "the tree counts its nodes wrongly", got=t.total_size, want=n)

    def depth(k):
        sub = [depth(c) for c in range(n) if parents[c] == k]
        return 1 + max(sub) if sub else 0

    for k in range(n):
        ctx.check(t.depth(keys[k]) == depth(k), "the depth of a node is wrong", got=t.depth(keys[k]), want=depth(k))
        ctx.check([c.key for c in node[k].children] == [keys[c] for c in range(n) if parents[c] == k], "a node has other children", parents=parents)
    for k in done:
        node[k].finished = True
    path, best, g = t.retrieve_decomposition(t.root)
    if not done:
        ctx.check(path == [] and best[0] == np.inf, "a tree without finished leaf gives a decomposition")
        ctx.ev("unfinished")
        return
    low = min(cost[k] for k in done)
    end = next(k for k in range(n) if keys[k] == path[-1].key)
    ctx.check(end in done and cost[end] == low == best[0] and best[1] == cost[end] / 2, "the branch returned is not the cheapest finished one", got=cost[end], want=low)
    ctx.check(g == f"graph{end}", "the graph returned belongs to another branch", got=g)
    chain = []
    k = end
    while k is not None:
        chain.insert(0, keys[k])
        k = parents[k]
    ctx.check([x.key for x in path] == chain, "the branch returned is no path of the tree", got=[x.key for x in path], want=chain)
    ctx.ev("trees")


def angles(ctx, rng):
    """The helpers for angles keep them modulo full turns."""
    from mqt.qudits.compiler.compilation_minitools import new_mod, pi_mod, swap_elements

    for _ in range(20):
        a = float(rng.choice([gen.angle(rng, 40), np.pi * int(rng.integers(-9, 10)) / 2, 0.0]))
        ctx.case({"angle": a}, nontrivial=False)
        m, p = new_mod(a), pi_mod(a)
        turn = lambda x: abs(np.exp(1j * x) - np.exp(1j * a)) < 1e-9  # noqa: E731
        ctx.check(turn(m) and abs(m) < 2 * np.pi + 1e-9 and m * a >= -1e-9, "reducing an angle by full turns changes it", angle=a, got=m)
        ctx.check(turn(p) and abs(p) <= np.pi + 1e-9, "reducing an angle to half turns changes it", angle=a, got=p)
    xs = gen.ints(rng.permutation(9))
    i, j = gen.ints(rng.permutation(9)[:2])
    want = list(xs)
    want[i], want[j] = want[j], want[i]
    ctx.check(swap_elements(list(xs), i, j) == want, "exchanging two elements of a list changes others")
    ctx.ev("angles", 20)


PROBES = [devices]
KINDS = {
    "swaps": {"fn": swaps, "quick": 600, "thorough": 8000},
    "phases_out": {"fn": phases_out, "quick": 200, "thorough": 3000},
    "phase_rules": {"fn": phase_rules, "quick": 300, "thorough": 5000},
    "routing": {"fn": routing, "quick": 1200, "thorough": 20000},
    "trees": {"fn": trees, "quick": 400, "thorough": 6000},
    "angles": {"fn": angles, "quick": 50, "thorough": 1000},
}
REQUIRED = {
    "swaps": 400, "queries": 400, "phase_swaps": 60, "stored_phases": 100, "turned": 100, "taken_along": 80, "left_alone": 60, "routed": 150, "pulses": 200, "distant_costs": 60,
    "devices": 4, "trees": 80, "unfinished": 10, "angles": 300, "#distance": 4,
}
ASSUMPTIONS = ["numpy's arithmetic", "graphs have levels 0..d-1 as nodes, as all devices of the tree have"]
BUDGET = {"quick": 60, "thorough": 400}
