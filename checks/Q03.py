"""Q03: temporal queries see exactly the snapshot at the requested time."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("Q03", rule="one evaluation = one query at one time (and one outcome of draws and order of replies), compared with "
                "the edges and feature versions valid at that time; distinct = different (query, answer)",
                assumptions=["several edges with the same source, target and type carry no features",
                             "features of an edge are not asked for after its removal",
                             "two versions of a feature do not have the same time",
                             "random draws from a continuous range are taken at the middle of equal cells"])

INTERVALS = [(c, r) for c in range(3) for r in list(range(c + 1, 4)) + [E.NEVER]] + [(1, 1)]
SCALES = [(0, 1), (2 ** 31 - 2, 1), (1600000000000, 86400000)]
WEIGHTS = (1.0, 2.0, 4.0, 8.0)
N, A, B = (E.NEVER,), 0, 1


def scaled(iv, s):
    base, step = SCALES[s]
    return tuple(x if x == E.NEVER else base + x * step for x in iv)


def cases():
    out = []
    one, two = ((0,),), ((0,), (1,))
    for k in (1, 2, 3):
        for n, ivs in enumerate(itertools.product(INTERVALS, repeat=k)):
            srt = list(ivs) == sorted(ivs, key=lambda i: (i[0], i[1] if i[1] >= 0 else 9))
            for types in ((0, 0, 0), (0, 0, 1), (0, 1, 1)) if k == 3 else ((0, 0), (0, 2)) if k == 2 else ((0,), (1,)):
                out.append(("edges", ivs, types, (0,) * k, 0, "local", None))
                if srt:
                    for where in ((0, 0, 1), (1, 0, 0), (0, 1, 0)):
                        w = where[:k]
                        if H.THOROUGH or n % 2 == 0:
                            out.append(("edges", ivs, types, w, 0, "local", None))
                        if H.THOROUGH or n % 3 == where[0] + types[-1] % 2:
                            out.append(("edges", ivs, types, w, 0, "cluster", two))
                    for s in (1, 2):
                        if H.THOROUGH or n % 2 == s - 1:
                            out.append(("edges", ivs, types, (0,) * k, s, "local", None))
                            if n % 3 == 0:
                                out.append(("edges", ivs, types, (0, 1, 0)[:k], s, "cluster", two))
    for n, ivs in enumerate(itertools.combinations_with_replacement(sorted(INTERVALS, key=lambda i: (i[0], i[1] if i[1] >= 0 else 9)), 4)):
        out.append(("edges", ivs, (0,) * 4, (0,) * 4, 0, "local", None))
        if n % 4 == 0 or H.THOROUGH:
            out.append(("edges", ivs, (0, 0, 1, 1), (0, 1, 1, 0), 0, "cluster", two))
            out.append(("edges", ivs, (0, 0, 1, 1), (0, 1, 1, 0), 0, "cluster", ((1, 0), (), ())))
    # several nodes at several times in one request
    for n, ivs in enumerate(itertools.product(INTERVALS, repeat=2)):
        for how, groups in (("local", None), ("cluster", two), ("cluster", ((1,), (0,)))):
            if how == "local" or H.THOROUGH or n % 4 == groups[0][0]:
                out.append(("nodes", ivs, (0, 0), (0, 1), 0, how, groups))
    # more edges of one type than the fast path of the lookup takes, in any order of their targets
    for n in (15, 16, 17, 18, 40):
        for how, groups in (("local", None), ("cluster", two)):
            for step in (1, 7, -1):
                for parts in (1, 2):
                    if groups is None or parts == 2:
                        out.append(("many", n, step, parts, 0, how, groups))
    # versions of features: which exist, of which kind, in one or two partitions
    times = [tuple(x) for k in range(4) for x in itertools.combinations((0, 1, 3), k)]
    for kind in ("dense", "string", "sparse"):
        for n, (a, b) in enumerate(itertools.product(times, repeat=2)):
            for how, groups in (("local", None), ("cluster", two), ("cluster", ((), (1, 0)))):
                for parts in (1, 2):
                    if groups is not None and parts == 1:
                        continue
                    for s in (0, 2) if n % 4 == 0 else (0,):
                        out.append((kind, a, b, parts, s, how, groups))
    # versions of one feature of a node spread over partitions
    for kind in ("dense", "string", "sparse"):
        for own in itertools.product(range(3), repeat=3):
            for how, groups in (("local", None), ("cluster", two), ("cluster", ((0, 1), ()))):
                out.append(("spread", kind, own, 2, 0, how, groups))
    return out


def value(kind, k):
    if kind == "dense":
        return ("d", "int32", tuple(range(10 * k + 1, 10 * k + 1 + (2, 1, 3)[k % 3])))
    if kind == "string":
        return ("s", ("ab", "c", "defg")[k % 3] + str(k))
    return ("sp", "int32", ((1, 5), (2,), (3, 4, 8))[k % 3], (10 * k + 1, 10 * k + 2, 10 * k + 3)[:(2, 1, 3)[k % 3]])


def versions(kind, times, s, off=0):
    return ("v", tuple((scaled((c,), s)[0], value(kind, i + off)) for i, c in enumerate(times))) if times else None


def feature_queries(kind, nodes, edges, feats, times):
    out = []
    for owners, e in ((nodes, False), (edges, True)):
        if not owners:
            continue
        for ts in [[t] * len(owners) for t in times] + [[times[(i + k) % len(times)] for i in range(len(owners))] for k in range(2)]:
            for fs in feats:
                if kind == "dense":
                    out.append(Q.q_dense(owners, [(f, (3, 1)[f % 2]) for f in fs], "int32", ts, edges=e))
                elif kind == "string":
                    out.append(Q.q_string(owners, fs, "uint8", ts, edges=e))
                else:
                    out.append(Q.q_sparse(owners, fs, "int32", ts, edges=e))
    return out


def build(case):
    """(layout, queries, samples)"""
    if case[0] == "edges":
        _, ivs, types, where, s, how, groups = case
        parts = max(where) + 1
        if groups:
            parts = max(parts, max((p for g in groups for p in g), default=0) + 1)
        edges = [(1, (20 - i, types[i], WEIGHTS[i], (), scaled(iv, s))) for i, iv in enumerate(ivs)]
        lay = Q.spread([(1, 0, 1.0, ()), (2, 1, 1.0, ())], edges, where, parts, (0, parts - 1))
        ts = [scaled((t,), s)[0] for t in range(-1 if not s else 0, 5)]
        tsets = [sorted(set(types))] + ([[types[0]]] if len(set(types)) > 1 else [[types[0], 5]])
        qs, ss = [], []
        for t in ts:
            for tt in tsets:
                qs += [Q.q_created([1], tt, [t]), Q.q_counts([1, 9], tt, [t, t])]
        for a, b in zip(ts, ts[2:]):
            qs += [Q.q_neighbors([1, 2, 1, 9], tsets[0], [a, a, b, b]), Q.q_counts([1, 2, 1], tsets[0], [b, a, a])]
        qs += [Q.q_neighbors([1, 2], tsets[0]), Q.q_counts([1], tsets[0])]
        for i, t in enumerate(ts):
            for k in range(1, len(ivs) + 2):
                if k in (1, 2) or how == "local":
                    ss.append(Q.Sample("last", [1], tsets[0], k, [t], created=k % 2 == 0))
        ss.append(Q.Sample("last", [2, 1, 9], tsets[0], 2, [ts[1], ts[2], ts[3]], created=True))
        ss.append(Q.Sample("last", [1, 1], tsets[1], 2, [ts[2], ts[3]]))
        for t in (1, 2):
            x = scaled((t,), s)[0]
            ss.append(Q.Sample("weighted", [1], tsets[0], 1, [x], created=True))
            ss.append(Q.Sample("uniform", [1], tsets[0], 1, [x], created=True))
            ss.append(Q.Sample("distinct", [1], tsets[0], 2, [x], created=t == 1))
        for kind in ("weighted", "uniform", "distinct") if len(ivs) < 3 else ():
            ss.append(Q.Sample(kind, [9, 1], tsets[0], max(1, len(ivs) - (how != "local")), created=True))
        return lay, qs, ss
    if case[0] == "nodes":
        _, ivs, types, where, s, how, groups = case
        edges = [(i + 1, (20 + i, types[i], WEIGHTS[i], (), iv)) for i, iv in enumerate(ivs)]
        edges += [(1, (30, 0, 4.0, (), (2, 3))), (3, (31, 0, 8.0, (), (1, E.NEVER))), (2, (32, 1, 8.0, (), (0, 2)))]
        lay = Q.spread([(i, 0, 1.0, ()) for i in (1, 2, 3)], edges, (0, 1, 1, 0, 0), 2, (0, 1, 1))
        qs, ss = [], []
        for ids, ts in (((3, 1, 2), (0, 2, 1)), ((2, 3, 9, 1), (1, 1, 2, 0)), ((1, 1, 2), (2, 0, 3))):
            qs += [Q.q_created(list(ids), [0], list(ts)), Q.q_counts(list(ids), [0, 1], list(ts)), Q.q_neighbors(list(ids), [1, 0], list(ts))]
            ss += [Q.Sample("last", ids, [0, 1], 2, ts, created=True)]
            ss += [Q.Sample(kind, ids, [0], 1, ts, created=True) for kind in ("weighted", "uniform", "distinct")]
        return lay, qs, ss
    if case[0] == "many":
        _, n, step, parts, s, how, groups = case
        dst = [100 + (i * step) % n if step > 0 else 100 + n - i for i in range(n)] if n % 7 or step != 7 else [100 + i ^ 1 for i in range(n)]
        edges = [(1, (dst[i], 1, 1.0 + i, (("v", ((i % 3, ("d", "int32", (i, 5))), (4, ("d", "int32", (i + 100,))))),),
                      (i // 6, E.NEVER if i % 4 else 6 + i % 3))) for i in range(n)] + [(1, (100, 0, 1.0, (), (0, E.NEVER)))]
        lay = Q.spread([(1, 0, 1.0, ()), (2, 1, 1.0, ())], edges, [i % parts for i in range(len(edges))], parts, (0, parts - 1))
        qs, ss = [], []
        el = [(1, d, 1) for d in sorted(dst)] + [(1, 100 + n + 1, 1), (1, 50, 1), (1, dst[0], 0)]
        for t in (0, 1, 3, 4):
            live = [e for e in el if e[2] == 0 or all(x[0] != e[1] or x[1] != 1 or x[4][0] <= t for _, x in edges)]
            qs += [Q.q_dense(live, [(0, 2)], "int32", [t] * len(live), edges=True), Q.q_string(live[::-1], [0], "uint8", [t] * len(live), edges=True)]
        for t in range(0, 9, 2):
            qs += [Q.q_created([1], [0, 1], [t]), Q.q_counts([1, 2], [1], [t, t])]
            ss += [Q.Sample("last", [1], [1], k, [t], created=True) for k in (1, 5, 17)]
        return lay, qs, ss
    if case[0] == "spread":
        _, kind, own, parts, s, how, groups = case
        # versions 0..2 of feature 0 (and of feature 1 the other way round) live in one of the partitions or nowhere
        lay = []
        for p in range(2):
            f = tuple(("v", tuple((c, value(kind, c + 3 * i)) for c in range(3) if (own if i == 0 else own[::-1])[c] == p)) for i in range(2))
            f = tuple(x if x[1] else None for x in f)
            lay.append(((1, 0, 1.0, f, ()),))
        lay[1] += ((2, 1, 1.0, (versions(kind, (0, 1), 0, 1), None), ()),)
        return tuple(lay), feature_queries(kind, [1, 2, 1], [], [[0], [1], [0, 1], [1, 0]], [0, 1, 2, 3]), []
    kind, a, b, parts, s, how, groups = case
    fa, fb = versions(kind, a, s), versions(kind, b, s, 1)
    iv = scaled((0, E.NEVER), s)
    recs = [(1, 0, 1.0, (fa, fb)), (2, 1, 1.0, (fb,)), (3, 1, 1.0, ())]
    edges = [(1, (2, 0, 1.0, (fa, fb), iv)), (1, (3, 0, 1.0, (fb,), iv)), (2, (1, 1, 2.0, (None, fa), iv)), (3, (1, 1, 2.0, (), iv))]
    lay = Q.spread(recs, edges, [0, parts - 1, 0, parts - 1], parts, (0, parts - 1, 0))
    ts = [scaled((t,), s)[0] for t in (0, 1, 2, 3, 4)]
    el = [(1, 2, 0), (1, 3, 0), (2, 1, 1), (3, 1, 1), (9, 1, 0), (1, 2, 0)]
    return lay, feature_queries(kind, [1, 2, 3, 9, 1], el, [[0], [1, 0], [0, 4, 1]], ts), []


def run(case, t):
    lay, qs, ss = build(case)
    how, groups = case[5:7]
    if how == "cluster" and not H.THOROUGH:
        qs = qs[::2]
    t.sample({"layout": repr(lay)[:300], "servers": repr(groups)})
    d = E.folder(E.files(lay, watermark=0))
    ref = E.Ref(lay)
    if how == "local":
        g = E.Local(d, [(d, p) for p in range(len(lay))])
        Q.compare(t, g.g, ref, qs, "%r" % (lay,), case, "%s:" % case[0], all=True)
        Q.compare_samples(t, g.g, ref, ss, "%r" % (lay,), case, "%s:" % case[0], grid=3)
    else:
        g = E.Cluster(d, groups)
        Q.compare_meta(t, g.g, d, "%r on servers %r" % (lay, groups), case)
        Q.compare_orders(t, g.g, ref, qs, "%r on servers %r" % (lay, groups), case, "%s:cluster:" % case[0])
        Q.compare_samples(t, g.g, ref, ss, "%r on servers %r" % (lay, groups), case, "%s:cluster:" % case[0], flags=E.ORDER, grid=2,
                          **({"small": 200, "large": 2000} if case[0] == "nodes" and not H.THOROUGH else {}))
    g.close()
    E.remove(d)


E.main(check, run, cases(), crash_key=lambda c: "crash:%s:%s" % (c[0], c[5]))
