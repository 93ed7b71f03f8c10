"""C07: temporal conversion keeps the validity interval of every edge and feature."""
import itertools
import json
import math
import os
import struct
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import numpy as np  # noqa: E402

check = H.Check("C07", rule="one evaluation = one temporal conversion, its stored intervals, feature versions and "
                "watermark compared with the input; distinct = different stored results",
                assumptions=["edge list input gives times on every line or through decoder defaults; node and edges are "
                             "separate records there, so their times are not compared with each other",
                             "versions exist for dense features only (string and sparse lists are refused)"])
M = None        # time not given
NEVER = float("inf")


def end(x):
    return NEVER if x == -1 else x


def effective(node, edge):
    nc = 0 if node[0] is M else node[0]
    nr = -1 if node[1] is M else node[1]
    return (nc if edge[0] is M else edge[0], nr if edge[1] is M else edge[1], nc, nr)


def cases():
    out = []
    T1 = (M, 0, 1, 2, 5)
    R1 = (M, -1, 0, 1, 2, 5)
    for mark in (5, 0):
        for nc, nr in itertools.product(T1, R1):
            out.append(("json", (nc, nr), (), (), mark, 1))
            for ec, er in itertools.product(T1, R1):
                out.append(("json", (nc, nr), ((ec, er, 0, 1),), (), mark, 1))
    # several edges: order of types, creation times, targets
    T2 = ((M, M), (1, M), (2, -1), (2, 3), (1, 2), (3, -1), (1, 6), (M, 4))
    ea = [(c, r, tp, dst) for c, r in T2 for tp, dst in ((0, 1), (1, 0))]
    for node in ((M, M), (1, M), (0, 9)):
        for k in (2, 3):
            for es in itertools.product(ea, repeat=k):
                out.append(("json", node, es, (), 7, 1))
    for es in itertools.product(ea[:4], repeat=2):
        out.append(("json2", (1, 9), es, (), 7, 2))
        out.append(("json2", (M, M), es, (), 7, 1))
    # feature versions on node and edge
    vers = []
    for k in (1, 2, 3):
        for cs in itertools.permutations((M, 1, 2, 4), k):
            vers.append(cs)
    for cs in vers:
        for dt in ("int32", "float32", "uint8", "float64", "int16"):
            for node, e in (((M, M), (M, M)), ((0, 9), (3, M)), ((2, M), (2, 6)), ((1, M), (3, -1))):
                out.append(("feat", node, ((e[0], e[1], 0, 1),), (cs, dt), 9, 1))
    # times of other sizes
    for k in (127, 128, 255, 256, 2 ** 15, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 10 ** 12, 2 ** 53 + 1, 2 ** 60):
        few = (M, 0, 1, k - 1, k, k + 1)
        for ec, er in itertools.product(few, few + (-1,)):
            for node in ((M, M), (1, M), (0, k), (k, -1)):
                out.append(("json", node, ((ec, er, 0, 1), (k, -1 if node[1] is M else k, 0, 2)), (), k + 1, 1))
        for cs in ((k,), (k, k + 1), (k + 1, 0, k)):
            out.append(("feat", (0, M), ((k, -1, 0, 1),), (cs, "int32"), k + 2, 1))
        for c, rm in ((k, -1), (0, k), (k, k + 1)):
            out.append(("list", (c, rm), ((c, rm), (k, k)), (M, M), k + 1, 1))
    # more edges and versions, in several orders of creation
    for n in list(range(4, 18)) + [31, 32, 33, 64, 65, 100, 128, 257]:
        for step in (1, n - 1, next(i for i in range(n // 2, 0, -1) if math.gcd(i, n) == 1)):
            times = [(i * step) % n for i in range(n)]
            for types in (1, 3):
                out.append(("json", (0, M), tuple((c, -1 if c % 2 else c + 3, i % types, i) for i, c in enumerate(times)), (), n + 9, 1))
                out.append(("json2", (0, M), tuple((c, -1 if c % 2 else c + 3, i % types, i) for i, c in enumerate(times)), (), n + 9, 2))
            if n < 40:
                out.append(("feat", (0, M), ((0, -1, 0, 1),), (tuple(times), "int16"), n + 9, 1))
    # edge list
    for mark in (7,):
        times = ((0, -1), (0, 0), (1, 5), (2, -1), (5, 5))
        for defaults in ((M, M), (3, M), (M, 4), (3, -1), (0, 0), (3, 4)):
            for nt in times:
                for k in (0, 1, 2):
                    for es in itertools.product(times, repeat=k):
                        out.append(("list", nt, es, defaults, mark, 1))
    return out


def values(i, k, dt):
    return [i + j for j in range(k + 1)]


def blob(b, dt):
    """[(created, values)] of a stored versioned feature."""
    n = struct.unpack_from("=i", b)[0]
    meta = struct.unpack_from("=%dq" % (2 * n + 1), b, 4)
    offs = meta[n:]
    return [(meta[i], np.frombuffer(b[offs[i]:offs[i + 1]], dtype=dt).tolist()) for i in range(n)]


def run(case, t):
    kind, node, es, feat, mark, parts = case
    rejected = False
    want = []
    for ec, er, tp, dst in es if kind != "list" else ():
        c, r, nc, nr = effective(node, (ec, er))
        if c < nc or end(r) > end(nr):
            rejected = True
        want.append((tp, c, dst, r))
    if kind == "list":
        dc, dr = feat
        dec = lambda: L.prepare()[1].EdgeListDecoder(  # noqa: E731
            is_temporal=True, default_created_at=dc, default_removed_at=dr)

        def tm(c, r):
            return ([] if dc is not M else [str(c)]) + ([] if dr is not M else [str(r)])
        lines = [",".join(["1", "-1", "0", "1.0"] + tm(*node) + ["int32", "1", "4"])]
        for i, (c, r) in enumerate(es):
            lines.append(",".join(["1", str(i), str(i + 2), "0.5"] + tm(c, r) + ["int32", "1", str(i)]))
            want.append((i, c if dc is M else dc, i + 2, r if dr is M else dr))
        text = "".join(x + "\n" for x in lines)
    else:
        dec = None
        recs = []
        for nid in (1, 2) if kind == "json2" else (1,):
            d = {"node_id": nid, "node_type": 0, "node_weight": 1.0, "edge": []}
            if node[0] is not M:
                d["created_at"] = node[0]
            if node[1] is not M:
                d["removed_at"] = node[1]
            for i, (ec, er, tp, dst) in enumerate(es):
                e = {"src_id": nid, "dst_id": dst, "edge_type": tp, "weight": 0.5 + i,
                     "int32_feature": {"0": [i]}}
                if ec is not M:
                    e["created_at"] = ec
                if er is not M:
                    e["removed_at"] = er
                d["edge"].append(e)
            if kind == "feat":
                cs, dt = feat

                def versions():
                    out = []
                    for i, c in enumerate(cs):
                        v = {"values": values(i, i, dt)}
                        if c is not M:
                            v["created_at"] = c
                        out.append(v)
                    return out
                d[L.JSON_KEYS[dt]] = {"0": versions()}
                d["edge"][0] = {k: v for k, v in d["edge"][0].items() if k != "int32_feature"}
                d["edge"][0][L.JSON_KEYS[dt]] = {"1": versions()}
            recs.append(d)
        text = "".join(json.dumps(d) + "\n" for d in recs)
    e = L.convert_text({"g.txt": text}, dec, parts, watermark=mark)
    t.evals += 1
    t.trans += e.steps

    def bad(key, what):
        t.violation("%s:%s" % (kind, key), "%s; case %r" % (what[:600], case), case)
    if e.outcome:
        bad("hang", "%s %r" % (e.outcome, e.blocked_info))
        return
    failed = e.error is not None or bool(e.thread_errors)
    if rejected:
        if not failed:
            bad("accepted", "an edge outside the lifetime of its node is accepted: node %r edges %r" % (node, es))
        t.state(kind, "rejected", node, es)
        return
    if failed:
        bad("refused", "valid input is refused: %r" % (str(e.error)[-300:] or e.thread_errors,))
        return
    try:
        m, ps = L.load(L.output())
    except L.Bad as x:
        bad("files", str(x))
        return
    if m.get("watermark") != mark:
        bad("watermark", "watermark in metadata is %r, given %r" % (m.get("watermark"), mark))
    marks = {x[1] for x in ps.values()}
    if marks != {mark}:
        bad("watermark", "watermark in files is %r, given %r" % (marks, mark))
    got = []
    ids = []
    for p, (nodes, _) in sorted(ps.items()):
        for nid, tp, feats, edges in nodes:
            ids.append(nid)
            mine = [(x[1], x[4][0], x[0], x[4][1]) for x in edges]
            if [(a[0], a[1]) for a in mine] != sorted((a[0], a[1]) for a in mine) and kind != "list":
                bad("order", "edges of node %d are stored in order (type, created, target, removed) %r" % (nid, mine))
            if sorted(mine) != sorted(want):
                bad("times", "stored (type, created, target, removed) %r, should be %r" % (sorted(mine), sorted(want)))
            got.append(mine)
            if kind in ("json", "json2"):
                # the feature of an edge stays with its interval: weight i+0.5 identifies the edge
                for x in edges:
                    i = round(x[2] - 0.5)
                    c, r, _, _ = effective(node, es[i][:2])
                    if (x[1], x[4], x[0]) != (es[i][2], (c, r), es[i][3]) or x[3] != [np.int32(i).tobytes()]:
                        bad("mixed", "edge %d is stored as %r" % (i, x))
            if kind == "feat":
                cs, dt = feat
                ec, er, nc, nr = effective(node, es[0][:2])
                for name, data, owner in (("node", feats[0] if feats else b"", nc),
                                          ("edge", edges[0][3][1] if len(edges[0][3]) > 1 else b"", ec)):
                    exp = sorted(((owner if c is M else c), [float(v) for v in values(i, i, dt)])
                                 for i, c in enumerate(cs))
                    try:
                        have = [(a, [float(v) for v in b]) for a, b in blob(data, dt)]
                    except (struct.error, ValueError) as x:
                        have = "unreadable: %s" % x
                    if isinstance(have, list) and [a for a, _ in have] == [a for a, _ in exp]:
                        have = sorted(have)
                    if have != exp:
                        bad("versions:" + name, "feature versions of the %s stored as %r, should be %r" % (name, have, exp))
                t.state(dt, cs, node)
    if sorted(ids) != ([1, 2] if kind == "json2" else [1]):
        bad("nodes", "nodes stored %r" % ids)
    t.state(got)
    t.sample(repr(case))


L.main(check, run, cases())
