"""G01: multi-hop neighbourhood sampling returns the tree the graph engine answered."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import numpy as np  # noqa: E402
from choice import Oracle, upto  # noqa: E402

check = H.Check("G01", rule="one evaluation = one call with one complete set of engine answers; distinct = different "
                "(arguments, answers, result)",
                assumptions=["the graph engine is a stand-in with the signature of the Graph interface that answers every "
                             "combination of neighbour ids; weights and types identify the position of the answer"])


def make(oracle, alphabet, neigh=None):
    from deepgnn.graph_engine import Graph

    class G(Graph):
        def __init__(self):
            self.calls = []

        def sample_neighbors(self, nodes, edge_types, count=10, strategy="byweight", default_node=-1, default_weight=0.0,
                             default_edge_type=-1, alpha=0.5, eps=0.0001, timestamps=None, return_edge_created_ts=False):
            n = len(nodes)
            k = len(self.calls)
            ids = np.array([[alphabet[oracle.pick(len(alphabet))] for _ in range(count)] for _ in range(n)], np.int64).reshape(n, count)
            w = (np.arange(n * count, dtype=np.float32) + 100 * k + 1).reshape(n, count)
            t = (np.arange(n * count, dtype=np.int32) + 50 * k + 7).reshape(n, count)
            c = np.arange(n, dtype=np.uint64)
            self.calls.append(("sample", np.array(nodes).tolist(), np.ravel(edge_types).tolist(), count, strategy, default_node,
                               (default_weight, default_edge_type, timestamps), ids.copy(), w.copy(), t.copy()))
            return ids, w, t, c

        def neighbors(self, nodes, edge_types, timestamps=None, return_edge_created_ts=False):
            out, cnt = [], []
            for x in np.ravel(nodes).tolist():
                es = [e for e in neigh.get(x, ()) if e[1] in np.ravel(edge_types).tolist()]
                out += es
                cnt.append(len(es))
            self.calls.append(("all", np.ravel(nodes).tolist(), np.ravel(edge_types).tolist(), timestamps))
            return (np.array([e[0] for e in out], np.int64), np.array([e[2] for e in out], np.float32),
                    np.array([e[1] for e in out], np.int32), np.array(cnt, np.uint64))

        def edge_features(self, edges, features, feature_type, timestamps=None):
            self.calls.append(("features", np.array(edges).tolist(), np.array(features).tolist(), np.dtype(feature_type)))
            return np.arange(len(edges) * 2, dtype=feature_type).reshape(-1, 2)

        def other(self, *a, **k):
            raise AssertionError("unexpected call")
        sample_nodes = sample_edges = node_features = node_types = node_count = edge_count = random_walk = other

    for n in getattr(Graph, "__abstractmethods__", ()):
        if n not in G.__dict__:
            setattr(G, n, G.other)
    G.__abstractmethods__ = frozenset()
    return G()


def fanout(case, t):
    from deepgnn.graph_engine import multihop
    _, nodes, shape, types, counts, default, strategy, alphabet = case
    script = []
    while script is not None:
        o = Oracle(script)
        g = make(o, alphabet)
        arr = np.array(nodes, dtype=np.int64).reshape(shape)
        keep = arr.copy()
        t.evals += 1
        what = "sample_fanout(%r, %r, %r, %r)" % (arr.tolist(), types, counts, default)
        try:
            kw = {} if strategy is None else {"sampling_strategy": strategy}
            r = multihop.sample_fanout(g, arr, [list(x) for x in types], list(counts), default, **kw)
        except Exception as e:
            t.violation("error", "%s: %s: %s" % (what, type(e).__name__, e), case)
            return
        t.trans += len(g.calls)
        bad = None
        prev = [int(x) for x in nodes]
        hops = min(len(types), len(counts))
        if len(g.calls) != hops or len(r) != 3 or [len(x) for x in r] != [hops + 1, hops, hops]:
            bad = "%d engine calls, results of length %r" % (len(g.calls), [len(x) for x in r])
        elif np.asarray(r[0][0]).tolist() != prev:
            bad = "first layer %r" % (r[0][0].tolist(),)
        else:
            for k, c in enumerate(g.calls):
                if c[1] != prev:
                    bad = "hop %d starts from %r, previous layer is %r" % (k, c[1], prev)
                elif c[2] != list(types[k]) or c[3] != counts[k] or c[4] != (strategy or "byweight") or c[5] != default:
                    bad = "hop %d asks for types %r, count %r, strategy %r, default %r" % (k, c[2], c[3], c[4], c[5])
                elif c[6] != (0.0, -1, None):
                    bad = "hop %d asks for %r" % (k, c[6])
                else:
                    for name, got, want in (("nodes", r[0][k + 1], c[7]), ("weights", r[1][k], c[8]), ("types", r[2][k], c[9])):
                        if np.asarray(got).ndim != 1 or np.asarray(got).tolist() != want.ravel().tolist():
                            bad = "%s of hop %d are %r, answered %r" % (name, k, np.asarray(got).tolist(), want.tolist())
                        elif np.asarray(got).dtype != want.dtype:
                            bad = "%s of hop %d have type %s" % (name, k, got.dtype)
                prev = c[7].ravel().tolist()
                if bad:
                    break
        if not bad and (arr != keep).any():
            bad = "the input nodes are changed"
        if bad:
            t.violation("fanout", "%s: %s" % (what, bad), case)
            return
        t.state("fanout", nodes, types, counts, [c[7].tolist() for c in g.calls])
        t.sample({"call": what, "answers": [c[7].tolist() for c in g.calls]})
        script = o.following()


def edges(case, t):
    from deepgnn.graph_engine import graph_ops
    _, nodes, count, types, meta, alphabet = case
    script = []
    while script is not None:
        o = Oracle(script)
        g = make(o, alphabet)
        arr = np.array(nodes, dtype=np.int64)
        t.evals += 1
        what = "sample_out_edges(%r, %r, %d)" % (nodes, types, count)
        kw = {} if meta is None else {"edge_feature_meta": np.array(meta, np.int32), "edge_feature_type": np.dtype(np.int64)}
        try:
            e, f = graph_ops.sample_out_edges(g, arr, np.array(types, np.int32), count, "random", **kw)
        except Exception as x:
            t.violation("error", "%s: %s: %s" % (what, type(x).__name__, x), case)
            return
        t.trans += len(g.calls)
        c = g.calls[0]
        want = [[int(n), int(c[7][i][j]), int(c[9][i][j])] for i, n in enumerate(nodes) for j in range(count)]
        bad = None
        if c[1] != list(nodes) or c[2] != list(types) or c[3] != count or c[4] != "random":
            bad = "the engine is asked for %r" % (c[1:5],)
        elif np.asarray(e).tolist() != want:
            bad = "edges %r, the engine answered %r" % (np.asarray(e).tolist(), want)
        elif (meta is None) != (f is None):
            bad = "features %r" % (f,)
        elif meta is not None and (len(g.calls) != 2 or g.calls[1][1] != want or g.calls[1][2] != [list(m) for m in meta]
                                   or g.calls[1][3] != np.dtype(np.int64)):
            bad = "features are asked for %r" % (g.calls[1:],)
        elif meta is not None and np.asarray(f).tolist() != np.arange(len(want) * 2).reshape(-1, 2).tolist():
            bad = "features %r" % (np.asarray(f).tolist(),)
        if bad:
            t.violation("edges", "%s: %s" % (what, bad), case)
            return
        t.state("edges", nodes, count, meta, want)
        script = o.following()


def neighbor(case, t):
    """Full neighbourhoods with padding."""
    from deepgnn.graph_engine import multihop
    _, nodes, shape, hops, width, neigh = case
    neigh = dict(neigh)
    g = make(None, (), neigh)
    arr = np.array(nodes, np.int64).reshape(shape)
    t.evals += 1
    what = "get_neighbor(%r, %r, %d) on %r" % (arr.tolist(), hops, width, neigh)
    # reference
    layers, adjs, fails = [(list(nodes), len(nodes), len(nodes))], [], False
    for tp in hops:
        prev, n, pad = layers[-1]
        rows = [(i, e) for i, x in enumerate(prev) for e in neigh.get(x, ()) if e[1] in tp]
        nxt = sorted({e[0] for _, e in rows})
        if len(rows) > width * pad:
            fails = True
            break
        adjs.append(([[i, nxt.index(e[0])] for i, e in rows], [e[2] for _, e in rows], [n, len(nxt)], width * pad))
        layers.append((nxt, len(nxt), width * pad))
    try:
        ns, ad = multihop.get_neighbor(g, arr, [np.array(x, np.int32) for x in hops], width)
    except UserWarning:
        if not fails:
            t.violation("neighbor", "%s: refused" % what, case)
        t.state("refused", what)
        return
    except Exception as e:
        t.violation("error", "%s: %s: %s" % (what, type(e).__name__, e), case)
        return
    t.trans += len(g.calls)
    if fails:
        t.violation("neighbor", "%s: %d neighbours do not fit, yet accepted" % (what, len(rows)), case)
        return
    got = [([int(x) for x in a[0]], [int(x) for x in a[1]]) for a in ns]
    want = [(x + [0] * (pad - n), [n]) for x, n, pad in layers]
    bad = None
    if got != want:
        bad = "layers %r, should be %r" % (got, want)
    else:
        for k, (a, w) in enumerate(zip(ad, adjs)):
            idx, val, shp, size = w
            m = len(idx)
            if np.asarray(a[0]).tolist() != idx + [[0, 0]] * (size - m) or np.asarray(a[1]).tolist() != val + [0.0] * (size - m) \
                    or np.asarray(a[2]).tolist() != shp or np.asarray(a[3]).tolist() != [m]:
                bad = "hop %d: adjacency %r, should be %r" % (k, [np.asarray(x).tolist() for x in a], w)
                break
        if len(ad) != len(adjs):
            bad = "%d adjacencies" % len(ad)
    t.state("neighbor", got)
    if bad:
        t.violation("neighbor", "%s: %s" % (what, bad), case)


def cases():
    out = []
    ids = (0, 3, 9)
    for nodes, shape in (((3,), (1,)), ((9, 0), (2,)), ((9, 0), (2, 1)), ((3, 3), (1, 2)), ((), (0,)), ((4, 2, 8), (3,))):
        for hops in (0, 1, 2, 3):
            for counts in itertools.product((1, 2, 3), repeat=hops):
                size, cells = len(nodes), 0
                for c in counts:
                    size *= c
                    cells += size
                alpha = ids if cells <= (8 if H.THOROUGH else 7) else ids[:2] if cells <= (12 if H.THOROUGH else 10) else None
                if alpha is None:
                    continue
                for types in (((0,),) * hops, tuple((k, k + 1) for k in range(hops)), tuple((2, 0, k) for k in range(hops))):
                    for d, s in ((-1, None), (0, "random")):
                        out.append(("fanout", nodes, shape, types, counts, d, s, alpha))
    out.append(("fanout", (1, 2), (2,), ((0,), (1,)), (2, 1), 7, "topk", (7, 1)))
    # larger sizes with one answer: weights and types tell the positions apart
    for n in (1, 2, 5, 16, 33, 130):
        for counts in ((4,), (10, 5), (33,), (130,), (7, 1, 3), (2, 2, 2, 2), (1, 1, 1, 1, 1)):
            if n * np.prod(counts) <= 5000:
                out.append(("fanout", tuple(range(3, 3 + n)), (n,), tuple((k,) for k in range(len(counts))), counts, -1, None, (6,)))
                out.append(("edges", tuple(range(3, 3 + n)), counts[0], (0, 2), ((1, 1), (0, 1)) if n % 2 else None, (6,)))
    for n in (3, 5, 16, 33, 130):
        ring = tuple((i, tuple(((i * 7 + s) % n, s % 2, 1.0 + s) for s in range(1 + i % 4))) for i in range(n))
        for seeds in ((0,), (n - 1, 0, 1), tuple(range(n))):
            for hops in (((0,),), ((0, 1), (1,)), ((0, 1), (0, 1), (0, 1)), ((0,),) * 5):
                for w in (1, 3, 4, 5):
                    out.append(("neighbor", seeds, (len(seeds),), hops, w, ring))
    for nodes in ((), (5,), (9, 0), (3, 3), (1, 2, 3)):
        for count in (1, 2, 3):
            if 3 ** (len(nodes) * count) > 800:
                continue
            for meta in (None, ((0, 2),), ((1, 1), (0, 1))):
                out.append(("edges", nodes, count, (0, 2), meta, ids))
    es = [(d, tp, 1.0 + d + 10 * tp) for d in (1, 2, 4) for tp in (0, 1)]
    lists = list(upto(es, 2)) + [tuple(es[:3]), tuple(es[::-1][:4])]
    for a, b in itertools.product(lists, repeat=2):
        for nodes in ((1,), (1, 2)) + (((2, 1), (1, 1)) if len(a) != 1 else ()):
            for hops in (((0,),), ((0, 1), (1,)), ((1,), (0,)), ((0, 1), (0, 1), (0,))):
                for w in (1, 2):
                    out.append(("neighbor", nodes, (len(nodes),), hops, w, ((1, a), (2, b))))
    out.append(("neighbor", (1, 2), (2, 1), ((0,), (0, 1)), 3, ((1, tuple(es[:3])), (2, ()))))
    out.append(("neighbor", (), (0,), ((0,), (0, 1)), 3, ((1, tuple(es[:3])), (2, ()))))
    return out


def run(case, t):
    {"fanout": fanout, "edges": edges, "neighbor": neighbor}[case[0]](case, t)


H.quiet_logging()
import deepgnn.graph_engine  # noqa: E402,F401
L.main(check, run, cases())
