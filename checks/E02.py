"""E02: a data set delivers to all its workers together what the graph says of every sample."""
import argparse
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np  # noqa: E402

import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import enginelib as E  # noqa: E402
import samplerlib as S  # noqa: E402

check = H.Check("E02", rule="one evaluation = all batches of all workers and replicas of one data set over a converted graph, or one "
                "outcome of the draws of a graph sampler; every sample and every answer is compared with the text; "
                "distinct = different (configuration class, batches)",
                assumptions=["batches are made in the calling thread (prefetching is the subject of D03)"])

PARTS = (("memory", 1, None), ("memory", 2, None), ("disk", 3, None), ("servers", 2, ((0,), (1,))), ("servers", 3, ((0, 2), (1,))),
         ("servers", 1, ((0,),)))
ASK = ("features", "hops", "sub")
FOLDERS = {}


def graph(n):
    """Nodes 100.. with a type, features and edges to each other (types 0 and 1) and to 200.. (type 2)."""
    out = []
    for i in range(n):
        es = [(100 + (i + 1) % n, 0, 1.0, ())]
        if i % 2 == 0:
            es.append((100 + (i + 2) % n, 1, 2.0, ()))
        es.append((200 + i, 2, 0.5, (("d", "float32", (i + 0.25, -float(i))),)))
        out.append((100 + i, i % 2, 1.0 + i % 2, (("d", "float32", (i * 1.5, 7.0)), ("d", "int64", (2 ** 50 + i,))), tuple(es)))
    return tuple(out)


def folder(n, parts):
    if (n, parts) not in FOLDERS:
        e = L.convert_text({"g": "".join(L.to_json(x) + "\n" for x in graph(n))}, None, parts)
        if e.error is not None or e.outcome or e.thread_errors:
            raise RuntimeError("conversion: %r %r %r" % (e.error, e.outcome, e.thread_errors))
        FOLDERS[n, parts] = E.folder(L.output())
    return FOLDERS[n, parts]


class Opened:
    def __init__(self, n, way):
        from deepgnn.graph_engine.backends.options import BackendOptions, GraphType
        from deepgnn.graph_engine.graph_dataset import BackendType, create_backend
        how, parts, groups = way
        d = folder(n, parts)
        client, server = E.mods()[:2]
        self.servers = []
        if groups is None:
            o = dict(data_dir=d, graph_type=GraphType.LOCAL, partitions=list(range(parts)))
            if how == "disk":
                o["storage_type"] = client.PartitionStorageType.disk
        else:
            names = ["s%d" % i for i in range(len(groups))]
            self.servers = [server.Server(d, [(d, p) for p in ps], x) for ps, x in zip(groups, names)]
            o = dict(graph_type=GraphType.REMOTE, skip_ge_start=True, servers=names, num_threads=1)
        self.b = create_backend(BackendOptions(argparse.Namespace(backend=BackendType.SNARK, **o)), is_leader=True)

    def close(self):
        self.b.graph.reset()
        for s in self.servers:
            s.reset()


def dataset(kind, c, w, r, backend, query):
    from deepgnn.graph_engine import samplers as M
    from deepgnn.graph_engine.graph_dataset import DeepGNNDataset
    base = os.path.join(S.ROOT, "lines_%d" % c["n"])
    kw = {}
    if c["dp"] > 1:
        kw.update(data_parallel_num=c["dp"], data_parallel_index=r)
    if c["W"] > 1:
        kw.update(num_workers=c["W"], worker_index=w)
    if c["ep"] > 1:
        kw["epochs"] = c["ep"]
    if c["dl"]:
        kw["drop_last"] = True
    if kind == "range":
        cls = M.RangeNodeSampler
        kw.update(first=c["first"], last=c["first"] + c["n"], backfill_id=S.PAD)
    elif kind == "node":
        cls = M.FileNodeSampler
        kw.update(sample_files=base + ".dir%d/*.node" % c["files"], backfill_id=S.PAD)
    elif kind == "edge":
        cls = M.FileEdgeSampler
        kw.update(sample_files=base + ".dir%d/*.edge" % c["files"], edge_type=2, backfill_id=S.PAD)
    elif kind == "tuple":
        cls = M.FileTupleSampler
        kw.update(filename=base + ".tuple", backfill=S.PAD)
    elif kind == "csv1":
        cls = M.CSVNodeSampler
        kw.update(sample_file=base + ".csv1", epoch=c["ep"])
    elif kind == "gnode":
        cls = M.GENodeSampler
        kw.update(node_types=c["types"] if isinstance(c["types"], int) else np.array(c["types"], dtype=np.int32))
    else:
        cls = M.GEEdgeSampler
        kw.update(edge_types=c["types"] if isinstance(c["types"], int) else np.array(c["types"], dtype=np.int32))
    return DeepGNNDataset(cls, query, backend=backend, batch_size=c["b"], **kw)


def near(ref, v, types):
    return sorted(e[0] for e in ref.edges.get(v, ()) if e[1] in types)


def ask(g, ids, what):
    """Answers of the graph for the nodes of a batch."""
    from deepgnn.graph_engine import graph_ops, multihop
    if what == "features":
        return (g.node_features(ids, np.array([[0, 2]], dtype=np.int32), np.float32).tolist(),
                g.node_features(ids, np.array([[1, 1]], dtype=np.int32), np.int64).tolist(), g.node_types(ids).tolist())
    if what == "hops":
        nodes, adj = multihop.get_neighbor(g, ids, np.array([[0], [1]], dtype=np.int32), 3)
        return [x[0][:x[1][0]].tolist() for x in nodes], [
            sorted((int(a[0]), int(a[1]), float(v)) for a, v in zip(x[0][:x[3][0]], x[1][:x[3][0]])) for x in adj]
    nodes, edges, idx = graph_ops.sub_graph(g, ids, np.array([0, 1], dtype=np.int32), 2, False, False, True)
    return nodes.tolist(), sorted(map(tuple, edges.tolist())), idx.tolist()


def want(ref, ids, what):
    if what == "features":
        fs = [(ref.node_feature(v, 0), ref.node_feature(v, 1)) for v in ids]
        return ([list(f[0][2]) if f[0] else [0.0, 0.0] for f in fs], [list(f[1][2]) if f[1] else [0] for f in fs],
                [ref.type(v, -1) for v in ids])
    if what == "hops":
        nodes, adj = [list(ids)], []
        for tp in (0, 1):
            nxt = sorted({d for v in nodes[-1] for d in near(ref, v, (tp,))})
            adj.append(sorted((i, nxt.index(e[0]), e[2]) for i, v in enumerate(nodes[-1]) for e in ref.edges.get(v, ()) if e[1] == tp))
            nodes.append(nxt)
        return nodes, adj
    src = sorted(set(ids) | {d for v in ids for d in near(ref, v, (0, 1))})
    edges = [(v, d) for v in src for d in near(ref, v, (0, 1))]
    nodes = sorted(set(ids) | {v for e in edges for v in e})
    return nodes, sorted((nodes.index(a), nodes.index(b)) for a, b in edges), [nodes.index(v) for v in ids]


def edge_answer(g, es):
    return g.edge_features(es, np.array([[0, 2]], dtype=np.int32), np.float32).tolist()


def edge_want(ref, es):
    fs = [ref.edge_feature(a, b, tp, 0) for a, b, tp in es]
    return [list(f[2]) if f else [0.0, 0.0] for f in fs]


class Wrong(AssertionError):
    pass


def run(case, t):
    kind, conf, way, what = case
    c = dict(conf)
    S.PAD = c["pad"]
    ref = E.Ref([graph(c["n"])])
    try:
        o = Opened(c["n"], way)
    except Exception as e:
        t.evals += 1
        return t.violation("open:%s" % way[0], "%r: %s: %s" % (case, type(e).__name__, str(e)[:300]), case)

    def query(g, inputs):
        if kind in ("edge", "gedge"):
            return inputs, edge_answer(g, inputs)
        ids = inputs[:, 0] if kind in ("tuple", "csv1") else inputs
        return inputs, ask(g, ids.astype(np.int64), what)

    def drawn(ds):
        out = []
        for k, (inputs, got) in enumerate(ds):
            es = S.rows(kind, inputs) if kind[0] != "g" else [tuple(x) if isinstance(x, list) else x for x in inputs.tolist()]
            if kind in ("edge", "gedge"):
                right = edge_want(ref, es)
            else:
                right = want(ref, [x[0] if isinstance(x, tuple) else x for x in es], what)
            if got != right:
                raise Wrong("batch %r: the answer is %r, should be %r" % (es, got, right))
            out.append(es)
            if k > S.max_batches(c):
                raise Wrong("does not end")
        if len(ds) != len(out):
            raise Wrong("%d batches, length says %d" % (len(out), len(ds)))
        return out
    try:
        if kind[0] == "g":
            run_graph(case, t, c, o, query, drawn)
        else:
            def make(kind, c, w, r):
                try:
                    return dataset(kind, c, w, r, o.b, query)
                except (AssertionError, RuntimeError) as e:
                    raise S.Refused(str(e))

            def draw(kind, ds, c):
                first = drawn(ds)
                S.seed_all()
                again = drawn(ds)
                if again != first:
                    raise Wrong("the second pass gives %r after %r" % (again, first))
                return first
            one = H.Tally()
            S.judge_split((kind, conf), one, make, draw)
            one.violations = [(k, "%s %s: %s" % (way, what, x), case) for k, x, _ in one.violations]
            t.merge(one)
    finally:
        o.close()


def run_graph(case, t, c, o, query, drawn):
    """Samplers that draw from the graph: all outcomes."""
    kind, types = case[0], c["types"] if not isinstance(c["types"], int) else (c["types"],)
    if kind == "gnode":
        pop = {v[0] for v in graph(c["n"]) if v[1] in types}
    else:
        pop = {(v[0], e[0], e[1]) for v in graph(c["n"]) for e in v[4] if e[1] in types}
    count = -(-c["ep"] * len(pop) // (c["b"] * c["W"] * c["dp"]))
    if not 0 < count * c["b"] <= 2:
        return
    one = count * c["b"] == 1
    seen = set()
    for r in E.explore(lambda: drawn(dataset(kind, c, 0, 0, o.b, query)), E.RANDOM, t, grid=6 if one else 2):
        if r.error is not None:
            return t.violation("%s:%s" % (kind, case[2][0]), "%r: %s: %s" % (case, type(r.error).__name__, r.error), case)
        got = r.result
        if len(got) != count or any(len(x) != c["b"] for x in got):
            return t.violation(kind + ":size", "%r: %d batches should be drawn, got %r" % (case, count, got), case)
        seen.update(x for y in got for x in y)
        t.state(kind, str(got))
    if seen - pop or one and seen != pop:
        return t.violation(kind + ":support", "%r: %r are drawn, should be %r" % (case, sorted(seen), sorted(pop)), case)


def cases():
    out, k = [], 0

    def add(kind, **c):
        nonlocal k
        c = tuple(sorted(dict(dict(ep=1, W=1, dp=1, dl=False, sh=False, pad=(-7, 0)[k // 3 % 2]), **c).items()))
        if kind == "edge":
            for i in range(2):
                k += 1
                out.append((kind, c, PARTS[k % len(PARTS)], ""))
        else:
            for what in ASK:
                k += 1
                out.append((kind, c, PARTS[k % len(PARTS)], what))
        k += 1
    for n, b, W, dp in itertools.product(range(1, 7), (1, 2, 3), (1, 2, 3), (1, 2)):
        add("range", n=n, b=b, W=W, dp=dp, first=100)
        add("range", n=n, b=b, W=W, dp=dp, first=0, pad=-7)
        for ep, dl in itertools.product((1, 2), (False, True)):
            for files in (1, 2, 3):
                if W <= files <= n:
                    add("node", n=n, b=b, W=W, dp=dp, ep=ep, dl=dl, files=files)
                    add("edge", n=n, b=b, W=W, dp=dp, ep=ep, dl=dl, files=files)
            if n >= W:
                add("tuple", n=n, b=b, W=W, dp=dp, ep=ep, dl=dl)
        if W == 1:
            for ep in (1, 2):
                add("csv1", n=n, b=b, dp=dp, ep=ep)
    for n, b, W, dp, ep, way in itertools.product((1, 2, 3), (1, 2), (1, 2), (1, 2), (1, 2), PARTS):
        if n * ep <= 4:
            for types in (0, 1, (0, 1)):
                out.append(("gnode", tuple(sorted(dict(n=n, b=b, W=W, dp=dp, ep=ep, dl=False, sh=False, pad=-7, types=types).items())), way, "features"))
            for types in (2, 1, (1, 2)):
                out.append(("gedge", tuple(sorted(dict(n=n, b=b, W=W, dp=dp, ep=ep, dl=False, sh=False, pad=-7, types=types).items())), way, ""))
    return out


def init():
    S.prepare(os.path.join(H.scratch(), "samples"))


if __name__ == "__main__":
    os.makedirs(os.path.join(H.scratch(), "samples"), exist_ok=True)
    init()
    E.main(check, run, cases(), crash_key=lambda c: "crash:%s:%s" % (c[0], c[2][0]))
