"""G03: forest-fire sampling and graph statistics stay inside the graph and end."""
import itertools
import math
import os
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import numpy as np  # noqa: E402
import networkx as nx  # noqa: E402
from choice import Cut, Oracle, draws  # noqa: E402

check = H.Check("G03", rule="one evaluation = one sampling or statistic with one complete sequence of random draws; distinct = "
                "different (graph, size, result)",
                assumptions=["draws of a geometric distribution are enumerated up to 3 (the graphs have at most 3 neighbours per node)",
                             "beyond the bound on the number of draws, draws follow a fixed sequence that visits all alternatives; the call must then end"])
LIMIT = 9 if H.THOROUGH else 8


def build(n, edges, labels):
    g = nx.DiGraph()
    for i in range(n):
        g.add_node(labels[i])
    for a, b in edges:
        g.add_edge(labels[a], labels[b])
    return g


def fire(case, t):
    import deepgnn.graph_engine.snark.preprocess.sampler.forest_fire as ff
    _, n, edges, size, labels, limit = case
    script = []
    while script is not None:
        g = build(n, edges, labels)
        o = Oracle(script, limit, fair=True)
        t.evals += 1
        what = "forest_fire(%d nodes, edges %r, sample size %d), draws %r" % (n, edges, size, [c for c, _ in o.trail][:20])
        s = None
        try:
            with draws(o):
                s = ff.forest_fire(g, size)
        except Cut:
            t.violation("endless", "%s: does not end" % what, case)
            return
        except Exception as e:
            t.violation("error", "%s: %s: %s" % (what, type(e).__name__, e), case)
            return
        t.trans += len(o.trail)
        what = "forest_fire(%d nodes, edges %r, sample size %d), draws %r" % (n, edges, size, [c for c, _ in o.trail][:20])
        ns, es = set(s.nodes()), set(s.edges())
        last = set(list(s.nodes())[-2:])
        if len(ns) == size + 1 and size > 0 and all(set(e) <= last or not set(e) & last for e in es):
            # a new fire was lit when there was room for one node only
            t.violation("over", "%s: %d nodes: %r" % (what, len(ns), sorted(ns)), case)
        elif len(ns) != size:
            t.violation("size", "%s: %d nodes: %r" % (what, len(ns), sorted(ns)), case)
            return
        if not ns <= set(g.nodes()) or not es <= set(g.edges()):
            t.violation("inside", "%s: nodes %r, edges %r" % (what, sorted(ns), sorted(es)), case)
            return
        if set(g.nodes()) != set(build(n, edges, labels).nodes()) or set(g.edges()) != set(build(n, edges, labels).edges()):
            t.violation("input", "%s: the input graph is changed" % what, case)
            return
        # every fire spreads over at least one edge, unless the sample is full
        alone = [v for v in ns if (v, v) not in g.edges() and set(g.successors(v)) | set(g.predecessors(v))
                 and not any(v in e for e in es)]
        if len(alone) > 1:
            t.violation("spread", "%s: the nodes %r are in the sample without any edge; edges %r" % (what, alone, sorted(es)), case)
            return
        t.state(n, edges, size, sorted(ns), sorted(es))
        if len(o.trail) > len(o.script) and o.spin:
            t.count("completed_beyond_bound")
        script = o.following()
    t.sample({"nodes": n, "edges": repr(edges), "size": size})


def stats(case, t):
    import deepgnn.graph_engine.snark.preprocess.sampler.metric as metric
    _, n, edges, labels = case
    g = build(n, edges, labels)
    t.evals += 1
    t.trans += 4
    what = "%d nodes, edges %r" % (n, edges)
    # reachability
    d = {(a, b): 0 if a == b else 1 if (a, b) in edges else math.inf for a in range(n) for b in range(n)}
    for k, a, b in itertools.product(range(n), repeat=3):
        d[a, b] = min(d[a, b], d[a, k] + d[k, b])
    comps = {frozenset(b for b in range(n) if d[a, b] < math.inf and d[b, a] < math.inf) for a in range(n)}
    big = max((len(c) for c in comps), default=0)
    diam = {max(d[a, b] for a in c for b in c) for c in comps if len(c) == big} or {0}
    m = np.zeros((n, n))
    for a, b in edges:
        m[a, b] = 1
    # spectral radius: largest root, via the growth of walks of the strongest component
    lam = max((abs(x) for x in np.linalg.eigvals(m)), default=0.0)
    for name, want in (("densification", {0.0 if n <= 1 or not edges else math.log(len(edges)) / math.log(n)}), ("diameter", diam),
                       ("largest_connected_component", {big / n if n else 0.0}), ("max_adjacency", {float(lam)})):
        try:
            got = getattr(metric, name)(g)
        except Exception as e:
            t.violation(name, "%s: %s: %s: %s" % (what, name, type(e).__name__, e), case)
            continue
        if not any(abs(got - w) < 1e-3 for w in want):
            t.violation(name, "%s: %s gives %r, should be %r" % (what, name, got, sorted(want)), case)
    t.state("stats", n, edges)


def cluster(case, t):
    import deepgnn.graph_engine.snark.preprocess.sampler.metric as metric
    _, n, edges, trials, labels = case
    what = "average_clustering(%d nodes, edges %r, %d trials)" % (n, edges, trials)
    script, mean, total = [], 0.0, 0.0
    und = {frozenset(e) for e in edges}
    while script is not None:
        g = build(n, edges, labels)
        o = Oracle(script)
        t.evals += 1
        try:
            with draws(o):
                v = metric.average_clustering(g, trials)
        except Exception as e:
            t.violation("clustering:error", "%s, draws %r: %s: %s" % (what, [c for c, _ in o.trail], type(e).__name__, e), case)
            return
        t.trans += len(o.trail)
        if not any(abs(v - k / trials) < 1e-9 for k in range(trials + 1)):
            t.violation("clustering", "%s: %r" % (what, v), case)
            return
        mean += o.prob * v
        total += o.prob
        script = o.following()
    want = 0.0
    for a in range(n):
        nb = [b for b in range(n) if frozenset((a, b)) in und and a != b]
        ps = list(itertools.combinations(nb, 2))
        if ps:
            want += sum(frozenset(p) in und for p in ps) / len(ps)
    want /= n
    t.state("cluster", n, edges, trials)
    if abs(total - 1) > 1e-6 or abs(mean - want) > 1e-6:
        t.violation("clustering", "%s: expected value %r over all draws, should be %r" % (what, mean, want), case)


def cases():
    out = []
    la = {False: (0, 1, 2, 3, 4, 5), True: (7, 3, 9, 2, 11, 5)}
    for n in (1, 2, 3):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        for mask in range(1 << len(pairs)):
            es = tuple(p for i, p in enumerate(pairs) if mask >> i & 1)
            out.append(("stats", n, es, la[True]))
            for size in range(0, n + 1):
                out.append(("fire", n, es, size, la[mask % 2 == 1], LIMIT + 3 if n < 3 else LIMIT))
            if all(a != b for a, b in es):
                for trials in (1, 2):
                    out.append(("cluster", n, es, trials, la[mask % 2 == 1]))
    pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
    for mask in range(1 << len(pairs)):
        es = tuple(p for i, p in enumerate(pairs) if mask >> i & 1)
        out.append(("stats", 4, es, la[mask % 2 == 1]))
        out.append(("cluster", 4, es, 1, la[mask % 2 == 0]))
        if mask % 4 == 1 or H.THOROUGH:
            for size in (2, 3, 4):
                out.append(("fire", 4, es, size, la[False], 6))
    # two pairs apart, isolated nodes
    for es in (((0, 1), (2, 3)), ((0, 1), (1, 0), (2, 3)), ((0, 1), (2, 3), (4, 5)), ((0, 1), (0, 2), (3, 4))):
        n = 6
        for size in range(0, 7):
            out.append(("fire", n, es, size, la[True], 5))
        out.append(("stats", n, es, la[True]))
        out.append(("cluster", n, es, 2, la[True]))
    out.append(("stats", 0, (), la[True]))
    # nodes without any edge can not burn: ask only for as many nodes as can be reached
    return [c for c in out if c[0] != "fire" or c[3] <= len({v for e in c[2] for v in e})]


def run(case, t):
    {"fire": fire, "stats": stats, "cluster": cluster}[case[0]](case, t)


H.quiet_logging()
warnings.simplefilter("ignore")
L.main(check, run, cases())
