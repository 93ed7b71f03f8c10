"""E01: queries answer what the text files say, through conversion, storage, download and servers."""
import itertools
import json
import math
import os
import sys
from fractions import Fraction as F

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import convlib as L  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("E01", rule="one evaluation = one graph converted from text and opened in one way, or one outcome of the draws of a "
                "sampler over it; all answers are compared with the text; distinct = different (query, answer)",
                assumptions=["several edges with the same source, target and type carry no features",
                             "a feature is read with the kind it was stored with; the order of the neighbours of one node is free"])

A = ("d", "float32", (1.5, -2.0))
B = ("d", "int64", (2 ** 60 + 1,))
S = ("s", "xy")
P = ("sp", "int32", ((1, 2), (3, 4)), (7, -8))
FEATS = ((), (S, A), (None, A), (A, None, P), (S, B, P))
ABSENT = 99
# edges of the i-th of n nodes: (offset of the target, type, weight, features)
EDGES = ((), ((1, 0, 1.0, (S,)),), ((1, 1, 0.5, ()), (2, 1, 1.5, (None, A))), ((1, 0, 2.0, (A, B)), (1, 2, 1.0, (S,)), (0, 1, 3.0, ())))
FORMS = ("json", "list", "tsv", "queue")
IDS = ((0, 1, 2), (7, 2 ** 40, 2 ** 63 - 1))
TIMES = ((0, -1), (1, 3), (2, -1), (2, 4), (0, 4))
WAYS = ("memory", "disk", "remote", "cluster", "remote cluster", "client")


def ways(parts):
    """(way, partitions of each server)"""
    out = [(w, None) for w in WAYS if "cluster" not in w]
    for n in (1, 2, 3):
        for g in E.groupings(parts, n):
            out.append(("cluster", g))
    out.append(("remote cluster", tuple((p,) for p in range(parts))))
    return out


def nodes(kinds, ids, types, weights):
    out = []
    for i, (f, e) in enumerate(kinds):
        es = tuple(((list(ids) + [ABSENT])[(i + o) % (len(kinds) + 1)], tp, w, x) for o, tp, w, x in EDGES[e])
        out.append((ids[i], types[i], weights[i], FEATS[f], es))
    return tuple(out)


def cases():
    out = []
    one = list(itertools.product(range(len(FEATS)), range(len(EDGES))))
    layouts = [(p, w) for p in (1, 2, 3) for w in (1, 2)]
    setups = [(p, w, x) for p, w in layouts for x in ways(p)]
    k = 0
    # every pair of nodes in every form; the ways to open the graph take turns
    for kinds in itertools.product(one, repeat=2):
        for form in FORMS:
            for _ in range(4 if H.THOROUGH else 1):
                p, w, x = setups[k % len(setups)]
                k += 1
                out.append((form, nodes(kinds, IDS[k % 2], (k % 3, 2 * (k % 2)), (1.0, 3.0)), p, w, x))
    # some graphs in every form, number of partitions and workers, opened in every way
    for kinds in (((1, 3), (4, 2)), ((3, 3), (0, 0)), ((0, 1), (2, 3)), ((4, 1), (1, 2), (3, 3)), ((0, 0), (2, 2), (0, 3))):
        n = len(kinds)
        for form, (p, w, x) in itertools.product(FORMS, setups):
            out.append((form, nodes(kinds, IDS[p % 2], (0, 2, 1)[:n], (1.0, 3.0, 0.0)[:n]), p, w, x))
    # times
    for ts in itertools.product(TIMES, repeat=2):
        for versions in ((1,), (0, 2), (1, 2, 3)):
            for p, x in [(1, ("memory", None)), (2, ("disk", None)), (2, ("remote", None)), (2, ("cluster", ((0,), (1,)))), (2, ("cluster", ((0, 1),)))]:
                for same in (False, True):
                    out.append(("times", ts, versions, same, p, x))
    # samplers
    for types in itertools.product((0, 1), repeat=3):
        for ws in ((1.0, 1.0, 1.0), (1.0, 3.0, 1.0), (2.0, 0.0, 1.0)):
            for p, x in ((1, ("memory", None)), (2, ("memory", None)), (2, ("cluster", ((0,), (1,)))), (3, ("remote", None))):
                out.append(("sample", types, ws, p, x))
    return out


def convert(form, ns, parts, workers, **kw):
    D = L.prepare()[1]
    if form == "list":
        dec, rows = D.EdgeListDecoder, [L.to_edge_list(n) for n in ns]
    elif form == "tsv":
        dec, rows = D.TsvDecoder, [[L.to_tsv(n)] for n in ns]
    elif form == "text":
        dec, rows = None, [[json.dumps(n)] for n in ns]
    else:
        dec, rows = None, [[L.to_json(n)] for n in ns]
    if form == "queue":
        to = {r[0]: (i * 2 + 1) % parts for i, r in enumerate(rows)}
        kw["make_dispatcher"] = lambda: L.prepare()[2].QueueDispatcher(
            "vpfs://out", parts, lambda x: to[x.strip()], D.JsonDecoder(), use_threads=True)
        workers = 1
    files = {"g_%d" % i: "".join(x + "\n" for r in rows[i::workers] for x in r) for i in range(workers)}
    return L.convert_text(files, dec, parts, workers, **kw)


class Opened:
    def __init__(self, parts, x):
        how, groups = x
        self.d = "vpfs://out" if "remote" in how else E.folder(L.output())
        ps = list(range(parts))
        self.servers = ()
        client, _, local, distributed = E.mods()
        if groups is not None:
            self.c = E.Cluster(self.d, groups)
            self.g, self.close_ = self.c.g, self.c.close
        elif how == "client":
            self.g = Q.Wrapped(local.Client(self.d, ps))
            self.close_ = self.g.reset
        else:
            self.c = E.Local(self.d, ps, disk=how == "disk")
            self.g, self.close_ = self.c.g, self.c.close

    def close(self):
        self.close_()
        if not self.d.startswith("vpfs"):
            E.remove(self.d)


def opened(parts, x, case, t):
    try:
        return Opened(parts, x)
    except Exception as err:
        fail(t, case, "open", "%s: %s" % (type(err).__name__, str(err)[:300]))


def feature_queries(ids, edges, fs):
    """All features of all elements, with the kind they have; position -> kinds."""
    kinds = {}
    for f in fs:
        for i, x in enumerate(f):
            if x is not None:
                kinds.setdefault(i, set()).add(x)
    out = []
    for owners, e in ((ids + [ABSENT], False), (edges, True)):
        if not owners:
            continue
        out.append(Q.q_string(owners, [0, 1, 2], edges=e))
        out.append(Q.q_dense(owners, [(1, 2), (0, 1)], "float32", edges=e))
        out.append(Q.q_dense(owners[::-1], [(1, 1)], "int64", edges=e))
        if not kinds.get(2, {P}) - {P}:
            out.append(Q.q_sparse(owners, [2], "int32", edges=e, ordered=False))
    return out


def fail(t, case, kind, text):
    t.violation(kind, "%r: %s" % (case, text), case)


def run(case, t):
    form, x, parts = case[0], case[-1], case[-2 if case[0] in ("times", "sample") else 2]
    t.evals += 1
    if form == "times":
        return run_times(case, t)
    if form == "sample":
        return run_sample(case, t)
    ns, workers = case[1], case[3]
    if form == "tsv" and any(f and f[0] == "sp" for n in ns for f in n[3]):
        ns = tuple(n[:3] + (tuple(f if not f or f[0] != "sp" else None for f in n[3]),) + n[4:] for n in ns)
    e = convert(form, ns, parts, workers)
    if e.error is not None or e.outcome or e.thread_errors:
        return fail(t, case, "convert", "%r %r %r" % (e.error, e.outcome, e.thread_errors))
    o = opened(parts, x, case, t)
    if o is None:
        return
    try:
        ids = [n[0] for n in ns]
        edges = [(n[0], y[0], y[1]) for n in ns for y in n[4]]
        asked = sorted(set(edges)) + [(ids[0], ABSENT - 1, 0)]
        qs = Q.structure_queries(ids, (ABSENT,), [0, 1, 2])
        qs += feature_queries(ids, asked, [n[3] for n in ns] + [y[3] for n in ns for y in n[4]])
        meta = o.g.meta if x[0] != "client" else None
        for name, got, want in () if meta is None else (
                ("nodes", meta.node_count, len(ns)), ("edges", meta.edge_count, len(edges)),
                ("nodes per type", list(meta.node_count_per_type), [sum(n[1] == i for n in ns) for i in range(max(n[1] for n in ns) + 1)]),
                ("edges per type", list(meta.edge_count_per_type),
                 [sum(y[2] == i for y in edges) for i in range(max([y[2] for y in edges] + [-1]) + 1)])):
            if got != want:
                fail(t, case, "count", "%s: %r, should be %r" % (name, got, want))
        Q.compare(t, o.g, E.Ref([ns]), qs, repr(case), case, key=form + ":")
    finally:
        o.close()
    t.sample({"form": form, "partitions": parts, "workers": workers, "opened": x[0]})


def run_times(case, t):
    _, ts, versions, same, parts, x = case
    recs, ref = [], []
    for i, (c, r) in enumerate(ts):
        d = {"node_id": i, "node_type": i, "node_weight": 1.0, "edge": []}
        vs = [("d", "int32", (10 * i + v, v)) for v in versions]
        feat = [{"values": list(f[2]), "created_at": v} for f, v in zip(vs, versions)]
        d["int32_feature"] = {"0": feat, "1": [{"values": [100 + i], "created_at": 1}]}
        f = (("v", tuple(zip(versions, vs))), ("v", ((1, ("d", "int32", (100 + i,))),)))
        es = []
        for k, (c2, r2) in enumerate(((c, r), ts[1 - i])):
            ev, tp = max(c2, 1), 0 if same else k
            d["edge"].append({"src_id": i, "dst_id": 5 - k, "edge_type": tp, "weight": 0.5 + k, "created_at": c2, "removed_at": r2,
                              "int32_feature": {"0": [{"values": [k, i], "created_at": ev}]}})
            es.append((5 - k, tp, 0.5 + k, (("v", ((ev, ("d", "int32", (k, i))),)),), (c2, r2 if r2 != -1 else E.NEVER)))
        recs.append(d)
        ref.append((i, i, 1.0, f, tuple(es)))
    e = convert("text", recs, parts, 1, watermark=5)
    if e.error is not None or e.outcome or e.thread_errors:
        return fail(t, case, "convert", "%r %r %r" % (e.error, e.outcome, e.thread_errors))
    o = opened(parts, x, case, t)
    if o is None:
        return
    try:
        qs = [Q.q_types([0, 1, 9])]
        for a, b in itertools.product((0, 1, 2, 3, 4, 9), repeat=2):
            at = [a, b, a]
            for types in ([0], [0, 1]):
                qs += [Q.q_neighbors([0, 1, 9], types, at), Q.q_counts([0, 1, 9], types, at), Q.q_created([0, 1, 9], types, at)]
            qs += [Q.q_dense([0, 1, 9], [(0, 2), (1, 1)], "int32", at), Q.q_dense([(0, 5, 0), (1, 4, 0 if same else 1), (9, 9, 0)], [(0, 2)], "int32", at, edges=True)]
        Q.compare(t, o.g, E.Ref([ref]), qs, repr(case), case, key="times:")
        for a, b in itertools.product((0, 2, 3, 9), repeat=2):
            for n in (1, 2):
                last = Q.Sample("last", [0, 1, 9], [0, 1], n, [a, b, a], created=True)
                try:
                    err = last.judge(E.Ref([ref]), last.ask(o.g))
                except Exception as x:
                    err = "%s: %s" % (type(x).__name__, str(x)[:200])
                t.trans += 1
                if err:
                    return fail(t, case, "times:last", "%s: %s" % (last.name, err))
    finally:
        o.close()


def run_sample(case, t):
    _, types, ws, parts, x = case
    ns = tuple((i, tp, w, (), ((10 + i, types[-1 - i], ws[-1 - i], ()),)) for i, (tp, w) in enumerate(zip(types, ws)))
    e = convert("json", ns, parts, 1)
    if e.error is not None or e.outcome or e.thread_errors:
        return fail(t, case, "convert", "%r %r %r" % (e.error, e.outcome, e.thread_errors))
    where = {n[0]: p for p, (rows, _) in L.load(L.output())[1].items() for n in rows}
    o = opened(parts, x, case, t)
    if o is None:
        return
    try:
        for edge in (False, True):
            el = [((n[0], n[4][0][0], n[4][0][1]), n[4][0][1], n[4][0][2], where[n[0]]) if edge else ((n[0], n[1]), n[1], n[2], where[n[0]])
                  for n in ns]
            for asked in [[a] for a in sorted(set(types))] + [[0, 1]]:
                pop = {a: F(w) for a, tp, w, _ in el if tp in asked}
                total = sum(pop.values())
                if not total:
                    continue
                den = {1}
                for key in {(y[1], y[3]) for y in el}:
                    span = [F(y[2]) for y in el if (y[1], y[3]) == key and y[1] in asked]
                    den.add(max(1, len(span)))
                    if sum(span):
                        den.update((w * len(span) / sum(span)).denominator for w in span)
                try:
                    s = (E.mods()[0].EdgeSampler if edge else E.mods()[0].NodeSampler)(o.g, asked, "weighted")
                except Exception as err:
                    fail(t, case, "sampler", "%s: %s" % (type(err).__name__, str(err)[:300]))
                    continue
                got, mass = {}, 0.0
                for r in E.explore(lambda: [tuple(int(v) for v in y) for y in zip(*s.sample(1, 5))], E.RANDOM, t, grid=math.lcm(*den)):
                    row = r.result[0] if r.error is None and len(r.result) == 1 else repr(r.error or r.result)
                    if row not in pop:
                        fail(t, case, "sample", "%s of types %r gives %r, should be one of %r" % (edge, asked, row, sorted(pop)))
                        break
                    got[row] = got.get(row, 0.0) + r.prob
                    mass += r.prob
                    t.state(case, edge, tuple(asked), row)
                else:
                    if abs(mass - 1) > 1e-6 or any(abs(got.get(a, 0.0) - w / total) > 1e-6 for a, w in pop.items()):
                        fail(t, case, "share", "%s of types %r have shares %r, should be in proportion to %r" % (
                            "edges" if edge else "nodes", asked, got, {a: float(w) for a, w in pop.items()}))
                s.reset()
                s.reset = lambda: None
    finally:
        o.close()


E.main(check, run, cases(), crash_key=lambda c: "crash:%s:%s" % (c[0], c[-1][0]))
