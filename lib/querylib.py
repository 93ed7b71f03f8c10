"""Queries over a graph and their expected answers, used by the checks of the query engine."""
import itertools

import numpy as np

import convlib as L
import enginelib as E


def split(flat, counts):
    out, k = [], 0
    for c in counts:
        out.append(flat[k:k + int(c)])
        k += int(c)
    return out if k == len(flat) else [("does not add up", len(flat), list(map(int, counts)))]


def q_types(ids, default=-7):
    def ask(g):
        return [int(x) for x in g.node_types(np.array(ids, dtype=np.int64), default)]

    def want(r):
        return [r.type(i, default) for i in ids]
    return "types of %r" % (ids,), ask, want


def q_neighbors(ids, types, ts=None):
    """Neighbours with their weights and types."""
    tset = {types} if isinstance(types, int) else set(types)

    def ask(g):
        a, w, t, c = g.neighbors(np.array(ids, dtype=np.int64), types, **({} if ts is None else {"timestamps": ts}))
        return [sorted(x) for x in split(list(zip(a.tolist(), w.tolist(), t.tolist())), c)]

    def want(r):
        return [sorted(x[:3] for x in r.neighbors(i, tset, None if ts is None else ts[k])) for k, i in enumerate(ids)]
    return "neighbours of %r over %r%s" % (ids, types, "" if ts is None else " at %r" % (ts,)), ask, want


def q_created(ids, types, ts=None, temporal=True):
    """Neighbours with the creation times of the edges."""
    def ask(g):
        a, w, t, c, s = g.neighbors(np.array(ids, dtype=np.int64), types, return_edge_created_ts=True,
                                    **({} if ts is None else {"timestamps": ts}))
        return [sorted(x) for x in split(list(zip(a.tolist(), w.tolist(), t.tolist(), s.tolist())), c)], len(s)

    def want(r):
        x = [sorted(r.neighbors(i, set(types), None if ts is None else ts[k])) for k, i in enumerate(ids)]
        if ts is None:
            x = [[y[:3] + (-1,) for y in z] for z in x]
        return x, sum(map(len, x))
    return "neighbours with times of %r over %r%s" % (ids, types, "" if ts is None else " at %r" % (ts,)), ask, want


def q_counts(ids, types, ts=None):
    tset = {types} if isinstance(types, int) else set(types)

    def ask(g):
        return [int(x) for x in g.neighbor_counts(np.array(ids, dtype=np.int64), types, **({} if ts is None else {"timestamps": ts}))]

    def want(r):
        return [len(r.neighbors(i, tset, None if ts is None else ts[k])) for k, i in enumerate(ids)]
    return "degrees of %r over %r%s" % (ids, types, "" if ts is None else " at %r" % (ts,)), ask, want


def _elements(owners):
    if owners and isinstance(owners[0], tuple):
        return [np.array([o[k] for o in owners], dtype=np.int64 if k < 2 else np.int32) for k in range(3)]
    return [np.array(owners, dtype=np.int64)]


def _lookup(r, o, i, ts):
    return r.edge_feature(*o, i, ts) if isinstance(o, tuple) else r.node_feature(o, i, ts)


def q_dense(owners, feats, dtype, ts=None, edges=False):
    kw = {} if ts is None else {"timestamps": np.array(ts, dtype=np.int64)}

    def ask(g):
        f = (g.edge_features if edges else g.node_features)
        a = _elements(owners) if owners else [np.empty(0, dtype=np.int64)] * (3 if edges else 1)
        x = f(*a, features=np.array(feats, dtype=np.int32), dtype=np.dtype(dtype), **kw)
        return [x.shape, x.dtype.name, x.tobytes()]

    def want(r):
        b = b"".join(E.dense(_lookup(r, o, i, None if ts is None else ts[k]), n, dtype)
                     for k, o in enumerate(owners) for i, n in feats)
        return [(len(owners), sum(n for _, n in feats)), dtype, b]
    return "%s features %r of %r as %s%s" % ("edge" if edges else "node", feats, owners, dtype,
                                             "" if ts is None else " at %r" % (ts,)), ask, want


def q_string(owners, feats, dtype="uint8", ts=None, edges=False):
    kw = {} if ts is None else {"timestamps": np.array(ts, dtype=np.int64)}
    size = np.dtype(dtype).itemsize

    def ask(g):
        f = (g.edge_string_features if edges else g.node_string_features)
        a = _elements(owners) if owners else [np.empty(0, dtype=np.int64)] * (3 if edges else 1)
        v, d = f(*a, features=np.array(feats, dtype=np.int32), dtype=np.dtype(dtype), **kw)
        flat = v.tobytes()
        out, k = [], 0
        for n in d.flatten().tolist():
            out.append(flat[k:k + n * size])
            k += n * size
        return [d.shape, out, flat[k:]]

    def want(r):
        out = [L.feature_bytes(_lookup(r, o, i, None if ts is None else ts[k])) for k, o in enumerate(owners) for i in feats]
        return [(len(owners), len(feats)), out, b""]
    return "%s string features %r of %r%s" % ("edge" if edges else "node", feats, owners, "" if ts is None else " at %r" % (ts,)), ask, want


def q_sparse(owners, feats, dtype, ts=None, edges=False, ordered=True):
    kw = {} if ts is None else {"timestamps": np.array(ts, dtype=np.int64)}

    def ask(g):
        f = (g.edge_sparse_features if edges else g.node_sparse_features)
        a = _elements(owners) if owners else [np.empty(0, dtype=np.int64)] * (3 if edges else 1)
        ind, val, dim = f(*a, features=np.array(feats, dtype=np.int32), dtype=np.dtype(dtype), **kw)
        out = []
        for i, v in zip(ind, val):
            rows = [tuple(x) for x in i.reshape((-1, i.shape[-1] if i.ndim > 1 else 1)).tolist()]
            if len(rows) != len(v):
                return ["%d rows for %d values" % (len(rows), len(v))]
            z = list(zip(rows, v.tolist()))
            out.append(z if ordered else sorted(z))
        return [len(ind), len(val), out, dim.tolist()]

    def want(r):
        out, dims = [], []
        for i in feats:
            rows, dim = [], 0
            for k, o in enumerate(owners):
                x = _lookup(r, o, i, None if ts is None else ts[k])
                if x is None or not L.feature_bytes(x):
                    continue
                for c, v in zip(x[2], np.array(x[3], dtype=x[1]).tolist()):
                    c = c if isinstance(c, tuple) else (c,)
                    dim = len(c)
                    rows.append(((k,) + c, v))
            out.append(rows if ordered else sorted(rows))
            dims.append(dim)
        return [len(feats), len(feats), out, dims]
    return "%s sparse features %r of %r%s" % ("edge" if edges else "node", feats, owners, "" if ts is None else " at %r" % (ts,)), ask, want


def subsets(xs):
    return [c for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]


def structure_queries(ids, absent, types):
    out = [q_types(ids), q_types(list(absent)), q_types(ids[::-1] + ids[:1], 5)]
    lists = [[i] for i in ids[:2]] + [ids + list(absent) + ids[:1]]
    for ts in subsets(types):
        if not ts:
            continue
        for x in lists:
            out += [q_neighbors(x, list(ts)), q_counts(x, list(ts))]
    full = lists[-1]
    out += [q_neighbors(full, types[-1]), q_counts(full, types[0]), q_neighbors(full, [99]), q_counts(full, [99]),
            q_neighbors(full, list(types)[::-1] + list(types)), q_counts(full, list(types)[::-1] + list(types)),
            q_neighbors(list(absent), list(types)), q_counts(list(absent), list(types))]
    return out


def compare_meta(t, g, d, where, case):
    """What the client knows about the graph is what its folder says."""
    import deepgnn.graph_engine.snark.meta as meta
    want, got = vars(meta.Meta(d)), vars(g.meta)
    for k, v in want.items():
        x = got.get(k)
        if not (np.allclose(x, v, rtol=1e-5) if isinstance(v, list) and isinstance(x, list) and len(v) == len(x) else x == v):
            t.violation("meta", "%s: %s is %r, should be %r" % (where, k, x, v), case)


def compare_orders(t, g, ref, queries, where, case, key=""):
    """Ask every query in every order of the replies; a wrong answer or an error is a violation."""
    bad = set()
    for name, ask, want in queries:
        w = want(ref)
        k = key + name.split(" ")[0] + ("" if name.split(" ")[0] not in ("node", "edge") else "-" + name.split(" ")[1])
        if k in bad:
            continue
        for r in E.explore(lambda: ask(g), E.ORDER, t):
            got = r.result if r.error is None else "%s: %s" % (type(r.error).__name__, str(r.error)[:200])
            if got != w:
                bad.add(k)
                t.violation(k, "%s, %s, replies in order %r: answer %r, should be %r" % (where, name, r.script, got, w), case)
                break
            t.state(name, repr(w), tuple(r.script))


def compare(t, g, ref, queries, where, case, key="", all=False):
    """Ask every query; a wrong answer or an error is a violation."""
    bad = set()
    for name, ask, want in queries:
        w = want(ref)
        try:
            got = ask(g)
        except Exception as e:
            got = "%s: %s" % (type(e).__name__, str(e)[:200])
        t.trans += 1
        if got != w:
            k = key + name.split(" ")[0]
            if all and name.split(" ")[0] in ("node", "edge"):
                k += "-" + name.split(" ")[1]
            if k not in bad:
                bad.add(k)
                t.violation(k, "%s, %s: answer %r, should be %r" % (where, name, got, w), case)
            if not all:
                return False
        t.state(name, repr(w))
    return True


# -- sampled answers -------------------------------------------------------------------------------
DEFAULT = (-17, 3.5, 77)


def _rows(ids, count, *cols):
    for c in cols:
        if c.shape != (len(ids), count):
            return ["shape %r" % (c.shape,)]
    return [[tuple(c[i][j].item() for c in cols) for j in range(count)] for i in range(len(ids))]


class Sample:
    """A sampling request: ask(g) gives a list of rows per node, judge(ref, rows) what is wrong with them or None.

    kind: weighted, uniform, distinct (without replacement) or last (the newest ones)."""

    def __init__(self, kind, ids, types, count, ts=None, created=False):
        self.kind, self.ids, self.types, self.count, self.ts, self.created = kind, list(ids), types, count, ts, created
        self.name = "%s sample of %d neighbours of %r over %r%s%s" % (
            kind, count, self.ids, types, "" if ts is None else " at %r" % (ts,), " with times" if created else "")

    def ask(self, g):
        kw = {} if self.ts is None else {"timestamps": np.array(self.ts, dtype=np.int64)}
        if self.created:
            kw["return_edge_created_ts"] = True
        node, weight, tp = DEFAULT
        ids = np.array(self.ids, dtype=np.int64)
        if self.kind == "weighted":
            r = g.weighted_sample_neighbors(ids, self.types, self.count, default_node=node, default_weight=weight,
                                            default_edge_type=tp, seed=5, **kw)
        elif self.kind == "last":
            r = g.lastn_neighbors(ids, self.types, count=self.count, default_node=node, default_weight=weight,
                                  default_edge_type=tp, default_timestamp=-1, **kw)
        else:
            r = g.uniform_sample_neighbors(self.kind == "distinct", ids, self.types, self.count, default_node=node,
                                           default_type=tp, seed=5, **kw)
        return _rows(self.ids, self.count, *r)

    def shown(self, n):
        """A neighbour (dst, weight, type, created) as the answer shows it."""
        n = n[:3] + (n[3] if self.ts is not None else -1,)
        if self.kind in ("uniform", "distinct"):
            n = n[:1] + n[2:]
        return n if self.created else n[:-1]

    @property
    def missing(self):
        return self.shown((DEFAULT[0], DEFAULT[1], DEFAULT[2], -1))

    def population(self, ref, k):
        ts = None if self.ts is None else self.ts[k]
        return ref.neighbors(self.ids[k], {self.types} if isinstance(self.types, int) else set(self.types), ts)

    def judge(self, ref, rows):
        if len(rows) != len(self.ids):
            return "%d rows" % len(rows)
        for k, row in enumerate(rows):
            if isinstance(row, str):
                return row
            pop = self.population(ref, k)
            if self.kind in ("weighted", "uniform"):
                ok = {self.shown(n) for n in pop if n[1] > 0 or self.kind == "uniform"} or {self.missing}
                for x in row:
                    if x not in ok:
                        return "node %d: %r is not one of its neighbours %r" % (self.ids[k], x, sorted(ok))
                continue
            m = min(len(pop), self.count)
            left = [self.shown(n) for n in pop]
            for x in row[:m]:
                if x not in left:
                    return "node %d: %r is not one of the (remaining) neighbours %r" % (self.ids[k], x, left)
                left.remove(x)
            for x in row[m:]:
                if x != self.missing:
                    return "node %d: %r instead of the default %r" % (self.ids[k], x, self.missing)
            if self.kind == "last":
                times = {}
                for n in pop:
                    times.setdefault(self.shown(n), []).append(n[3])
                want = sorted((n[3] for n in pop), reverse=True)[:m]
                # the rows carry their times, or each neighbour has one time only
                if self.created:
                    got = sorted((x[-1] for x in row[:m]), reverse=True)
                else:
                    got = sorted((times[x].pop() for x in row[:m]), reverse=True)
                if got != want:
                    return "node %d: times %r, the newest are %r" % (self.ids[k], got, want)
        return None


def compare_samples(t, g, ref, samples, where, case, key="", flags=0, grid=4, small=None, large=None):
    """Every outcome of the draws (and reply orders) of every request.

    With small: the finest grid (at most the given one) with no more than so many executions, the coarsest one
    up to large executions; requests that need more are left out and counted."""
    bad = set()
    for s in samples:
        k = key + s.kind
        for n in range(grid, 1, -1):
            if k in bad:
                break
            cap = None if small is None else large if n == 2 else small
            whole = True
            for r in E.explore(lambda: s.ask(g), E.RANDOM | flags, t, grid=n):
                err = s.judge(ref, r.result) if r.error is None else "%s: %s" % (type(r.error).__name__, str(r.error)[:200])
                if err is not None:
                    bad.add(k)
                    t.violation(k, "%s, %s, draws %r: %s" % (where, s.name, r.script, err), case)
                    break
                t.state(s.name, repr(r.result))
                if cap is not None:
                    cap -= 1
                    if cap == 0:
                        whole = r.following() is None
                        break
            if whole:
                break
        else:
            t.count("left out")


# -- graphs and the queries asked about them -------------------------------------------------------
BIG = 2 ** 62 + 1
DTYPES = ("float32", "float64", "float16", "uint64", "int64", "uint32", "int32", "uint16", "int16", "uint8", "int8")
VALUES = {"float32": (1.5, -2.0, 0.25), "float64": (0.1, 3.0), "float16": (0.5, 3.0, 1.0)}
SPARSE = [("sp", "int32", (1, 5), (7, -8)), ("sp", "float32", ((0, 1), (2, 3)), (0.5, 1.0)), ("sp", "float16", (3,), (1.0,)),
          ("sp", "uint8", ((1, 2, 3), (4, 5, 6)), (9, 8)), ("sp", "float64", (4, 9, 11), (1.0, 2.0, 3.0)),
          ("sp", "int64", (2 ** 40,), (-5,)), ("sp", "float32", ((7, 8),), (2.0,))]


def D(dt, k=0):
    return ("d", dt, tuple(VALUES.get(dt, (k + 1, k + 2, k + 3))))


def spread(recs, edges, where, parts, home):
    """Layout with the node records at home[i] and every edge in the partition chosen for it."""
    out = [{} for _ in range(parts)]
    for (nid, tp, w, feats), h in zip(recs, home):
        out[h][nid] = [nid, tp, w, feats, []]
    for (src, e), p in zip(edges, where):
        out[p].setdefault(src, [src, -1, 0.0, (), []])[4].append(e)
    return tuple(tuple(tuple(n[:4]) + (tuple(n[4]),) for n in p.values()) for p in out)


def layout(case):
    kind, body, where, parts, home, how = case
    if kind in ("graph", "many"):
        recs = [(1, 2, 1.0, ()), (2, 0, 1.0, ())]
        el = [(s, e[0], e[1]) for s, e in body[:2] if not e[3]] + [(1, 9, 0), (9, 1, 1)]
        qs = structure_queries([1, 2], (9, -1), [0, 1, 3])
        if len(set(el)) == len(el):
            qs += [f([1, 2, 9], *a) for f, a in NONE] + [f(el, *a, edges=True) for f, a in NONE]
        if kind == "many":
            el = [(s, e[0], e[1]) for s, e in body] + [(1, 2, 1), (1, -5, 1), (1, 10 ** 6, 1)]
            qs += [q_dense(el, [(0, 1)], "int32", edges=True), q_string(el[::-1], [0], edges=True)]
        return spread(recs, body, where, parts, home), [1, 2], qs
    if kind == "empty":
        recs = [(1, 2, 1.0, (("s", "n"),)), (2, 0, 1.0, ())]
        qs = [q_types([]), q_neighbors([], [0, 1]), q_counts([], [0])]
        qs += [f([], *a) for f, a in NONE] + [f([], *a, edges=True) for f, a in NONE]
        qs += [q_neighbors([1, 2], []), q_counts([1, 2], [])]
        return spread(recs, body, where, parts, home), [1, 2], qs
    if kind == "mixed":
        recs = [(BIG, 0, 1.0, (("s", "n"),)), (0, 1, 2.0, (None, D("uint64")))]
        lay = spread(recs, body, where, parts, home)
        edges = [(s, e[0], e[1]) for s, e in body] + [(0, 5, 0), (BIG, 77, 3), (4, 4, 0)]
        qs = structure_queries([BIG, 0], (9,), [0, 1, 3])
        qs += [q_string([BIG, 0, 9, BIG], [0, 2]), q_dense([0, BIG, 3], [(1, 2), (0, 1)], "uint64")]
        if len(set(edges)) == len(edges):
            qs += [q_string(edges, [0, 1, 4], edges=True), q_dense(edges, [(1, 2), (0, 1)], "int16", edges=True)]
        return lay, [BIG, 0], qs
    if kind == "dense":
        a, b = body
        recs = [(1, 0, 1.0, (a, b)), (2, 1, 1.0, (b,)), (3, 0, 1.0, ())]
        edges = [(1, (2, 0, 1.0, (a, b))), (1, (3, 0, 1.0, (b,))), (1, (2, 1, 1.0, ())), (2, (1, 1, 2.0, (None, a)))]
        lay = spread(recs, edges, [0, parts - 1, 0, parts - 1], parts, list(home) + [0])
        ids = [1, 2, 3, 9, 1]
        el = [(1, 2, 0), (1, 3, 0), (1, 2, 1), (2, 1, 1), (2, 1, 0), (9, 1, 0), (1, 9, 0), (1, 2, 0)]
        qs = []
        for f in (a, b):
            dt = f[1] if f and f[0] == "d" else "uint8"
            n = len(L.feature_bytes(f)) // np_size(dt)
            for owners, e in ((ids, False), (el, True)):
                for size in {1, max(n, 1), n + 2}:
                    qs.append(q_dense(owners, [(0, size)], dt, edges=e))
                    qs.append(q_dense(owners, [(1, size), (0, 1), (4, 2), (1, size)], dt, edges=e))
                qs.append(q_string(owners, [1, 0], edges=e))
                qs.append(q_string(owners, [0, 5, 0], edges=e))
                qs.append(q_string(owners[::-1], [1], edges=e))
        qs += [q_dense([9, 8], [(0, 3)], "int32"), q_dense([(9, 8, 0)], [(0, 3)], "int32", edges=True),
               q_string([9], [0, 1]), q_string([(9, 8, 0)], [0, 1], edges=True)]
        return lay, [1, 2, 3], qs
    if kind == "sparse":
        a, b = body
        s = ("s", "text")
        recs = [(1, 0, 1.0, (a, s, b)), (2, 1, 1.0, (None, s, b)), (3, 0, 1.0, (a,))]
        edges = [(1, (2, 0, 1.0, (a, s, b))), (1, (3, 0, 1.0, (a,))), (1, (2, 1, 1.0, ())), (2, (1, 1, 2.0, (None, None, b)))]
        lay = spread(recs, edges, [0, parts - 1, 0, parts - 1], parts, list(home) + [0])
        el = [(1, 2, 0), (1, 3, 0), (1, 2, 1), (2, 1, 1), (2, 1, 0), (9, 1, 0), (1, 2, 0)]
        qs = []
        for i, f in ((0, a), (2, b)):
            if f:
                for owners, e in (([1, 2, 3, 9, 1], False), (el, True), ([3, 2, 1], False), (el[::-1], True)):
                    qs.append(q_sparse(owners, [i], f[1], edges=e))
                    qs.append(q_sparse(owners, [7, i], f[1], edges=e))
                    if a and b and a[1] == b[1]:
                        qs.append(q_sparse(owners, [2, 0], f[1], edges=e))
        qs += [q_string([1, 2, 3], [1]), q_sparse([9], [0], "int32"), q_sparse([(1, 9, 0)], [0, 2], "int32", edges=True)]
        return lay, [1, 2, 3], qs
    if kind == "scale":
        return scale(body, parts)
    raise ValueError(kind)


def scale(n, parts):
    """Many nodes with ids of any size, long features, a node with many edges, more than ten partitions."""
    def nid(i):
        return (i, 2 ** 31 + i, 2 ** 40 * (i + 1) + 7, 2 ** 63 - 1 - i)[i % 4]
    ids = [nid(i) for i in range(n)]
    recs, edges = [], []
    for i in range(n):
        f = (("d", "float32", tuple(float(i * 1000 + k) for k in range(300 if i % 10 == 0 else i % 4))),
             ("s", "%d-" % i + "abcde" * (14000 if i == 3 else i % 60)),
             ("sp", "int32", tuple((k, k * i) for k in range(1, 2 + (300 if i == 5 else i % 5))),
              tuple(i + k for k in range(1, 2 + (300 if i == 5 else i % 5)))) if i % 3 else None)
        recs.append((ids[i], i % 5, 1.0 + i % 7, f))
        for k in range(i % 3):
            edges.append((ids[i], (ids[(i * 7 + k + 1) % n], (i + k) % 4, 0.5 + k, (("d", "int64", (i, k)), ("s", "e%d" % (i + k))))))
    hub = ids[2]
    edges = [e for e in edges if e[0] != hub]
    edges += [(hub, (x, 2, 1.0 + k % 16, (("d", "int64", (2 ** 33 + k,)), ("s", "h" * (70000 if k == 9 else k % 300)))))
              for k, x in enumerate(ids)]
    lay = spread(recs, edges, [(i * 5) % parts for i in range(len(edges))], parts, [i % parts for i in range(n)])
    el = sorted({(a, e[0], e[1]) for a, e in edges}) + [(hub, 12345678901, 2), (hub, ids[0], 3)]
    some = ids[::-1] + [10 ** 15] + ids[:3]
    qs = [q_types(some), q_neighbors(some, [0, 1, 2, 3]), q_neighbors(some, [1, 3]), q_counts(some, [2]), q_counts(some, [0, 2, 3]),
          q_dense(some, [(0, 300), (0, 2)], "float32"), q_string(some, [1]), q_sparse(some, [2], "int32"),
          q_dense(el, [(0, 2)], "int64", edges=True), q_string(el[::-1], [1, 0], edges=True)]
    return lay, ids, qs


NONE = [(q_dense, ([(0, 2), (1, 1)], "int32")), (q_string, ([0, 1],)), (q_sparse, ([1, 0], "int32"))]


def np_size(dt):
    return np.dtype(dt).itemsize


class Wrapped:
    """The Graph interface of the package over the same data, with the call signatures of the client."""

    def __init__(self, c):
        self.c = c

    def node_types(self, ids, default):
        x = self.c.node_types(ids)
        return np.where(x == -1, default, x)

    def neighbors(self, ids, types):
        return self.c.neighbors(ids, np.array(types) if not isinstance(types, int) else types)

    def neighbor_counts(self, ids, types):
        return self.c.neighbor_count(ids, np.array(types) if not isinstance(types, int) else types)

    def node_features(self, ids, features, dtype):
        return self.c.node_features(ids, features, dtype)

    def edge_features(self, a, b, c, features, dtype):
        return self.c.edge_features(np.stack([a, b, c], axis=1), features, dtype)

    def __getattr__(self, name):
        return getattr(self.c.graph, name)

    def reset(self):
        self.c.reset()
