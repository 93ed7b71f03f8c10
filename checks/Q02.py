"""Q02: distributed queries answer as a local graph does, in any reply order."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("Q02", rule="one evaluation = one query to a cluster with the replies delivered in one order, compared with the "
                "answer read off the input; distinct = different (query, answer, order)",
                assumptions=["servers and client run in one process over a transport that delivers messages in a chosen order; "
                             "the engine's own client and service code runs unchanged on top of it",
                             "a reply is delivered whole and handled before the next one",
                             "several edges with the same source, target and type carry no features"])


def cases():
    D, BIG, SPARSE = Q.D, Q.BIG, Q.SPARSE
    out = []

    def add(kind, body, where, parts, home, servers, how="memory"):
        for g in E.groupings(parts, servers):
            out.append((kind, body, where, parts, home, how, g))
    # structure
    ea = [(d, tp) for d in (1, 2, BIG) for tp in (0, 1, 3)]
    for k in range(3):
        for n, es in enumerate(itertools.combinations_with_replacement(ea, k)):
            edges = tuple((1, (d, tp, (1.0, 0.5)[i], ())) for i, (d, tp) in enumerate(es))
            for where in itertools.product(range(2), repeat=k):
                for home in ((0, 1), (1, 0), (0, 0)):
                    if H.THOROUGH or (n + sum(where)) % 3 == home[0] + home[1]:
                        add("graph", edges, where, 2, home, 2)
    for es in itertools.combinations(ea[::2], 3):
        edges = tuple((1, (d, tp, (1.0, 0.5, 2.0)[i], ())) for i, (d, tp) in enumerate(es))
        out.append(("graph", edges, (0, 1, 2), 3, (0, 2), "memory", ((0,), (1,), (2,))))
        out.append(("graph", edges, (0, 1, 2), 3, (1, 2), "memory", ((2, 0), (), (1,))))
        out.append(("graph", edges, (0, 1, 2), 3, (1, 2), "memory", ((2, 0, 1), ())))
        out.append(("graph", edges, (0, 1, 3), 4, (3, 2), "memory", ((3, 1, 0), (2,))))
    # size
    for n, how in ((40, "memory"), (300, "memory"), (300, "disk"), (300, "client")):
        out.append(("scale", n, (), 12, (), how, tuple(tuple(range(i, 12, 3)) for i in range(3))))
        out.append(("scale", n, (), 12, (), how, ((11, 3), (1, 10), (0, 2, 4), (5, 6, 7, 8, 9))))
    for n in (15, 18):
        edges = tuple((1, (i * 3, 1, 1.0 + i, (("d", "int32", (i,)),))) for i in range(n)) + ((1, (4, 0, 1.0, ())),)
        add("many", edges, tuple(i % 2 for i in range(len(edges))), 2, (0, 1), 2)
    for g in E.groupings(1, 2):
        out.append(("empty", ((1, (2, 0, 1.0, (("s", "e"),))),), (0,), 1, (0, 0), "memory", g))
    for es in itertools.product(ea[1:5], repeat=2):
        edges = ((BIG, (es[0][0], es[0][1], 0.5, (("s", "x"),))), (0, (es[1][0], es[1][1], 3.0, (("s", "yz"), D("int16")))),
                 (0, (77, 3, 1.0, ())))
        for i, where in enumerate(itertools.product(range(2), repeat=3)):
            add("mixed", edges, where, 2, (i % 2, 0), 2, ("memory", "disk", "split", "client")[i % 4])
            if i in (2, 5):
                add("mixed", edges, where, 2, (i % 2, 0), 3)
    fs = [D(x) for x in Q.DTYPES[::2]] + [("s", "a"), ("s", "éxyz"), ("s", ""), None]
    for i, (a, b) in enumerate(itertools.product(fs, repeat=2)):
        for g in (((0,), (1,)), ((1, 0), ())) if i % 3 else ((((1,), (0,)), ((), (0, 1), ()), ((1,), (), (0,)))):
            out.append(("dense", (a, b), (), 2, (i % 2, 1), ("memory", "disk")[i % 2], g))
    for i, (a, b) in enumerate(itertools.product(SPARSE + [None, ("sp", "int32", (), ())], repeat=2)):
        for g in (((0,), (1,)), ((1, 0), ())) if i % 3 else ((((1,), (0,)), ((), (0, 1), ()), ((1,), (), (0,)))):
            out.append(("sparse", (a, b), (), 2, (i % 2, 1), "memory", g))
    return out


def run(case, t):
    how, groups = case[5:]
    lay, ids, qs = Q.layout(case[:6])
    if case[0] in ("graph", "mixed") and not H.THOROUGH:
        qs = qs[:3] + qs[3::2]
    t.sample({"layout": repr(lay)[:300], "servers": repr(groups)})
    d = E.folder(E.files(lay, split=how == "split"))
    c = E.Cluster(d, groups, disk=how == "disk")
    g = c.g
    if how == "client":
        g = Q.Wrapped(E.mods()[3].Client(["s%d" % i for i in range(len(groups))]))
    if how == "client":
        meta = E.meta(lay)
        got = [[int(f(i)) for i in range(9)] for f in (g.c.node_count, g.c.edge_count)]
        want = [(meta[k] + [0] * 9)[:9] for k in ("node_count_per_type", "edge_count_per_type")]
        if got != want:
            t.violation("count", "%r on servers %r: counts %r, should be %r" % (repr(lay)[:2000], groups, got, want), case)
    Q.compare_meta(t, c.g, d, "%s on servers %r" % (repr(lay)[:2000], groups), case)
    Q.compare_orders(t, g, E.Ref(lay), qs, "%s (%s) on servers %r" % (repr(lay)[:2000], how, groups), case, "%s:" % case[0])
    if g is not c.g:
        g.reset()
    c.close()
    E.remove(d)


E.main(check, run, cases(), crash_key=lambda c: "crash:%s" % c[0])
