"""Q01: local queries answer exactly what is in the converted graph."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import convlib as L  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("Q01", rule="one evaluation = one graph loaded in one layout, all its queries compared with answers read off the "
                "input; distinct = different (query, answer)",
                assumptions=["several edges with the same source, target and type carry no features",
                             "a feature is read with the kind it was stored with; the order of the neighbours of one node is free"])


def cases():
    D, BIG, SPARSE = Q.D, Q.BIG, Q.SPARSE
    out = []
    # structure: edges of a node in any partitions
    ea = [(d, tp) for d in (1, 2, BIG) for tp in (0, 1, 3)]
    for k in range(4):
        for es in itertools.combinations_with_replacement(ea, k):
            edges = tuple((1, (d, tp, (1.0, 0.5, 2.25)[i], ())) for i, (d, tp) in enumerate(es))
            for parts in (1, 2, 3):
                for where in itertools.product(range(parts), repeat=k):
                    if k == 3 and parts == 3 and not H.THOROUGH and (sum(where) + len(out)) % 3:
                        continue
                    out.append(("graph", edges, where, parts, (0, parts - 1), "memory"))
    # more edges of one type than the fast path of the lookup takes
    for n in (15, 16, 17, 18, 40):
        for parts in (1, 2):
            edges = tuple((1, (i * 3, 1, 1.0 + i, (("d", "int32", (i,)),))) for i in range(n))
            edges += tuple((1, (i * 3 + 1, 0, 1.0, ())) for i in range(3))
            out.append(("many", edges, tuple(i % parts for i in range(len(edges))), parts, (0, parts - 1), "memory"))
    # weights that do not add up exactly in single precision; nothing asked
    for ws in itertools.product((0.1, 0.3, 1e-8, 1e8, 3.0), repeat=3):
        edges = tuple((1, (i, 1, w, ())) for i, w in enumerate(ws))
        out.append(("graph", edges, (0, 0, 0), 1, (0, 0), "weights"))
    # size
    for n in (40, 300):
        for parts, how in ((1, "memory"), (1, "disk"), (12, "memory"), (12, "disk"), (12, "split"), (12, "apart"), (12, "reverse"), (12, "client")):
            out.append(("scale", n, (), parts, (), how))
    for parts in (1, 2):
        out.append(("empty", ((1, (2, 0, 1.0, (("s", "e"),))),), (0,), parts, (0, parts - 1), "memory"))
    # ids, disk, folders, order of loading, record sets split over files
    for es in itertools.product(ea[1:5], repeat=2):
        edges = ((BIG, (es[0][0], es[0][1], 0.5, (("s", "x"),))), (0, (es[1][0], es[1][1], 3.0, (("s", "yz"), D("int16"))))
                 , (0, (77, 3, 1.0, ())))
        for parts in (1, 2, 3):
            for where in itertools.product(range(parts), repeat=3):
                for how in ("disk", "split", "apart", "reverse", "subset", "client"):
                    out.append(("mixed", edges, where, parts, (parts - 1, 0), how))
    # features
    fs = [D(x) for x in Q.DTYPES] + [("s", "a"), ("s", "éxyz"), ("s", "")] + [None]
    for a, b in itertools.product(fs, repeat=2):
        for parts, how in ((1, "memory"), (2, "disk")) if a != b else ((1, "disk"), (2, "memory"), (2, "split")):
            out.append(("dense", (a, b), (), parts, (0, parts - 1), how))
    for a, b in itertools.product(SPARSE + [None, ("sp", "int32", (), ())], repeat=2):
        for parts, how in ((1, "memory"), (2, "disk"), (2, "memory")):
            out.append(("sparse", (a, b), (), parts, (0, parts - 1), how))
    for dt in Q.DTYPES:
        for n in (1, 2, 3, 5, 9, 300):
            for dim in (0, 1, 3):
                co = tuple(tuple(3 * i + k for k in range(dim)) if dim else 2 * i + 1 for i in range(n))
                f = ("sp", dt, co, tuple(i % 100 for i in range(1, n + 1)))
                for how in ("memory", "disk"):
                    out.append(("sparse", (f, None), (), 1, (0, 0), how))
    # converted by the repository's converter from text
    nodes = [(i, tp, 1.0 + i, f, es) for i, (tp, f, es) in enumerate(itertools.product(
        (0, 1), ((), (("s", "q"), D("float32"))), ((), ((1, 0, 1.0, (("s", "w"),)), (0, 1, 2.0, ())))))]
    for a, b in itertools.product(nodes, repeat=2):
        for parts in (1, 2, 3):
            if a[0] != b[0]:
                out.append(("text", (a, b), (), parts, (), "memory"))
    return out


def run(case, t):
    kind, body, where, parts, home, how = case
    t.evals += 1
    if kind == "text":
        e = L.convert_text({"g.json": "".join(L.to_json(n) + "\n" for n in body)}, None, parts)
        if e.error is not None or e.outcome:
            t.violation("convert", "conversion of %r fails: %r" % (body, e.error), case)
            return
        d = E.folder(L.output())
        ref = E.Ref([body])
        ids = [n[0] for n in body]
        edges = [(n[0], x[0], x[1]) for n in body for x in n[4]] + [(ids[0], 66, 0)]
        qs = Q.structure_queries(ids, (66,), [0, 1])
        qs += [Q.q_string(ids + [66], [0]), Q.q_dense(ids, [(1, 3)], "float32"), Q.q_string(edges, [0], edges=True)]
        g = Q.Wrapped(E.mods()[2].Client(d, list(range(parts))))
        for i in (0, 1, 2):
            for name, got, want in (("nodes", g.c.node_count(i), sum(n[1] == i for n in body)),
                                    ("edges", g.c.edge_count(i), sum(x[1] == i for n in body for x in n[4]))):
                if got != want:
                    t.violation("count", "%d %s of type %d, should be %d, for %r" % (got, name, i, want, body), case)
        for both in ([0, 1], [1, 0, 1], [7, 0, 1, 0, -1]):
            both = E.np.array(both)
            if g.c.node_count(both) != len(body) or g.c.edge_count(both) != sum(len(n[4]) for n in body):
                t.violation("count", "%d nodes, %d edges of types %r, for %r" % (g.c.node_count(both), g.c.edge_count(both), both.tolist(), body), case)
        Q.compare(t, g, ref, qs, "%r in %d partitions" % (body, parts), case)
        g.reset()
        E.remove(d)
        return
    lay, ids, qs = Q.layout(case)
    t.sample({"layout": repr(lay)[:300], "storage": how})
    ref = E.Ref(lay)
    fs = E.files(lay, split=how == "split")
    d = E.folder(fs)
    load = list(range(parts))
    if how == "reverse":
        load = load[::-1]
    elif how == "subset":
        load = load[1:] if parts > 1 else load
        ref = E.Ref(lay[1:] if parts > 1 else lay)
    elif how == "apart":
        for p in range(parts):
            os.mkdir(os.path.join(d, "p%d" % p))
            for n in fs:
                if n != "meta.json" and (n.startswith("node_features_%d_" % p) or n.startswith("edge_features_%d_" % p) or
                                         n.endswith("_%d.alias" % p) or n.split("_")[1] == str(p) and not n.endswith("alias")):
                    os.rename(os.path.join(d, n), os.path.join(d, "p%d" % p, n))
        load = [(os.path.join(d, "p%d" % p), p) for p in range(parts)]
    g = Q.Wrapped(E.mods()[2].Client(d, load)) if how == "client" else E.Local(d, load, disk=how == "disk").g
    Q.compare(t, g, ref, qs, "%s (%s)" % (repr(lay)[:2000], how), case, key="%s:" % ("inexact" if how == "weights" else kind))
    g.reset()
    E.remove(d)


E.main(check, run, cases(), crash_key=lambda c: "crash:%s:%s" % (c[0], c[5]))
