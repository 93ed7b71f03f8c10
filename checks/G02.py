"""G02: sub-graph and skip-gram builders follow their definitions exactly."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import numpy as np  # noqa: E402

check = H.Check("G02", rule="one evaluation = one call on one graph or set of walks; distinct = different (arguments, result)",
                assumptions=["the graph engine is a stand-in with the signature of the Graph interface; neighbours come per node in "
                             "any fixed order, one entry per edge"])


class G:
    def __init__(self, adj, flip):
        self.adj, self.flip = adj, flip

    def neighbors(self, nodes, edge_types, timestamps=None, return_edge_created_ts=False):
        out, cnt = [], []
        for x in np.ravel(nodes).tolist():
            es = [e for e in self.adj.get(x, ()) if e[1] in np.ravel(edge_types).tolist()]
            es = es[::-1] if self.flip else es
            out += es
            cnt.append(len(es))
        return (np.array([e[0] for e in out], np.int64), np.ones(len(out), np.float32),
                np.array([e[1] for e in out], np.int32), np.array(cnt, np.uint64))


def sub(case, t):
    from deepgnn.graph_engine import graph_ops
    _, edges, seeds, types, hops, loop, und, lst, ids, flip = case
    adj = {}
    for s, d, tp in edges:
        adj.setdefault(ids[s], []).append((ids[d], tp))
    g = G(adj, flip)
    src = np.array([ids[s] for s in seeds], np.int64)
    t.evals += 1
    t.trans += 1
    what = "sub_graph(seeds %r, types %r, %d hops, self_loop=%r, undirected=%r, return_edges=%r) on edges %r" % (
        src.tolist(), types, hops, loop, und, lst, [(ids[a], ids[b], c) for a, b, c in edges])
    # reference
    inner, frontier = set(src.tolist()), set(src.tolist())
    for _ in range(hops - 1):
        frontier = {d for x in frontier for d, tp in adj.get(x, ()) if tp in types}
        inner |= frontier
    es = [(x, d) for x in sorted(inner) for d, tp in adj.get(x, ()) if tp in types]
    nodes = sorted(inner | {d for _, d in es})
    pos = {x: i for i, x in enumerate(nodes)}
    pairs = [(pos[a], pos[b]) for a, b in es]
    if und:
        pairs += [(b, a) for a, b in pairs]
    if loop:
        pairs += [(i, i) for i in range(len(nodes))]
    try:
        n, a, i = graph_ops.sub_graph(g, src, np.array(types, np.int32), hops, loop, und, lst)
    except Exception as e:
        t.violation("error", "%s: %s: %s" % (what, type(e).__name__, e), case)
        return
    a = np.asarray(a)
    if np.asarray(n).tolist() != nodes:
        t.violation("nodes", "%s: nodes %r, should be %r" % (what, np.asarray(n).tolist(), nodes), case)
        return
    if np.asarray(i).tolist() != [pos[x] for x in src.tolist()]:
        t.violation("seeds", "%s: seeds at %r, should be at %r" % (what, np.asarray(i).tolist(), [pos[x] for x in src.tolist()]), case)
        return
    if lst:
        got = [tuple(int(y) for y in x) for x in a]
        # with reverse edges or self loops duplicates are merged
        want = sorted(set(pairs)) if loop or und else sorted(pairs)
        if sorted(got) != want or a.shape != (len(want), 2):
            t.violation("edges", "%s: edges %r, should be %r" % (what, sorted(got), want), case)
    else:
        m = [[0.0] * len(nodes) for _ in nodes]
        for x, y in pairs:
            m[x][y] = 1.0
        if a.tolist() != m or a.dtype != np.float32:
            t.violation("adjacency", "%s: adjacency %r, should be %r" % (what, a.tolist(), m), case)
    t.state(nodes, np.asarray(i).tolist(), a.tolist(), hops, loop, und, lst)
    t.sample({"call": what, "nodes": nodes, "result": a.tolist()})


def skip(case, t):
    from deepgnn.graph_engine import graph_ops
    _, walks, left, right = case
    t.evals += 1
    t.trans += 1
    arr = np.array(walks, np.int64)
    want = []
    for w in walks:
        for j in range(len(w)):
            for k in range(len(w)):
                if k != j and j - left <= k <= j + right:
                    want.append([w[j], w[k]])
    what = "gen_skipgrams(%r, %d, %d)" % (walks, left, right)
    try:
        n = graph_ops.get_skipgrams_size(arr.shape[1], left, right)
        got = graph_ops.gen_skipgrams(arr, left, right)
    except Exception as e:
        t.violation("skipgram", "%s: %s: %s" % (what, type(e).__name__, e), case)
        return
    t.state("skip", want)
    if n * len(walks) != len(want):
        t.violation("size", "%s: get_skipgrams_size gives %d per walk, there are %d pairs" % (what, n, len(want)), case)
    elif np.asarray(got).tolist() != want:
        t.violation("skipgram", "%s: pairs %r, should be %r" % (what, np.asarray(got).tolist(), want), case)


def cases():
    out = []
    seeds = [s for n in (1, 2) for s in itertools.product(range(3), repeat=n)] + [(2, 0, 1), (1, 1, 0)]
    ids = (5, 2, 900)
    pairs = [(a, b) for a in range(3) for b in range(3)]
    flags = list(itertools.product((False, True), repeat=3))
    k = 0
    for mask in range(512):
        es = tuple(p + (0,) for i, p in enumerate(pairs) if mask >> i & 1)
        for s in seeds:
            for hops in (1, 2, 3):
                for f in flags:
                    k += 1
                    out.append(("sub", es, s, (0,), hops) + f + (ids, k % 2 == 0))
    # several edge types, parallel edges
    ta = [(a, b, tp) for a in range(2) for b in range(3) for tp in (0, 1)]
    for n in (1, 2, 3):
        for es in itertools.combinations(ta, n):
            for types in ((0,), (1,), (1, 0)):
                for s in ((0,), (1, 0), (2,)):
                    for hops in (1, 2):
                        for f in flags[::3] if n == 3 else flags:
                            out.append(("sub", es, s, types, hops) + f + ((0, 1, 7), n == 2))
    # chains and cycles of 5 nodes, hops up to 5
    for es in (tuple((i, i + 1, 0) for i in range(4)), tuple((i, (i + 1) % 5, 0) for i in range(5)),
               tuple((i, 0, 0) for i in range(5)) + ((0, 3, 0),), tuple((0, i, 0) for i in range(5))):
        for s in itertools.chain(itertools.product(range(5), repeat=1), itertools.product(range(5), repeat=2)):
            for hops in range(1, 6):
                for f in flags:
                    out.append(("sub", es, s, (0,), hops) + f + ((8, 1, 5, 3, 2 ** 40), False))
    # larger graphs: rings with chords, hubs, trees
    for n in list(range(6, 18)) + [31, 32, 33, 64, 100, 129, 257]:
        many = tuple((k * 37) % (n + 5) + (2 ** 31 if k % 3 == 0 else 2 ** 62 if k % 5 == 0 else 0) for k in range(n))
        if len(set(many)) != n:
            many = tuple(7 * n - 3 * k for k in range(n))
        for es in (tuple((i, (i + s) % n, 0) for i in range(n) for s in (1, n // 2)), tuple((0, i, 0) for i in range(n)) + ((n - 1, 1, 0),),
                   tuple(((i - 1) // 2, i, i % 2) for i in range(1, n))):
            for s in ((0,), (n - 1, 0, 0), tuple(range(0, n, 3))):
                for hops in (1, 2, 3, 4, 6):
                    for f in flags if n < 20 else flags[:4]:
                        out.append(("sub", es, s, (0,) if hops % 2 else (1, 0), hops) + f + (many, hops == 2))
    for n in (8, 9, 16, 17, 33, 64):
        for left, right in itertools.product((0, 1, 2, 5, 7, 8, 15, 16, 40, 70), repeat=2):
            for b in (1, 5):
                out.append(("skip", tuple(tuple(range(100 * i, 100 * i + n)) for i in range(b)), left, right))
    for n in range(1, 8):
        for left, right in itertools.product(range(8), repeat=2):
            for b in (1, 2, 3):
                out.append(("skip", tuple(tuple(range(10 * i, 10 * i + n)) for i in range(b)), left, right))
    for w in itertools.product((4, 6), repeat=3):
        for left, right in itertools.product(range(4), repeat=2):
            out.append(("skip", (w, w[::-1]), left, right))
    return out


def run(case, t):
    {"sub": sub, "skip": skip}[case[0]](case, t)


H.quiet_logging()
import deepgnn.graph_engine  # noqa: E402,F401
L.main(check, run, cases())
