"""C04: sampling tables written by conversion encode exactly the input weights."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402

check = H.Check("C04", rule="one evaluation = one conversion, all its sampling tables compared with the weights of the "
                "input; distinct = different sets of tables",
                assumptions=["tables hold 32-bit numbers: masses are compared to 2e-6",
                             "when all weights of a type are zero the masses are not defined; the table must still "
                             "only name elements of the type"])
TOL = 2e-6
W = [0.0, 0.1, 0.3, 1.0, 3.0, 1000.0, 0.001]


def cases():
    out = []
    for k in range(1, 8 if H.THOROUGH else 7):
        alphabet = W if k < 6 else (0.0, 0.1, 0.7, 1.0)
        for ws in itertools.product(alphabet, repeat=k):
            out.append(("one", ws, 1, 0))
    for k in range(1, 5 if H.THOROUGH else 4):
        for ws in itertools.product(W[:4], repeat=k):
            for types in itertools.product((0, 1, 3), repeat=k):
                out.append(("two", ws, 1, types))
    for ws in itertools.product(W[1:4], repeat=4):
        for p in (2, 3):
            out.append(("two", ws, p, (0, 1, 0, 2)))
    for flags in itertools.product((False, True), repeat=3):
        for p in (1, 2):
            for types in itertools.product((0, 2), repeat=2):
                out.append(("skip", (1.0, 2.0), p, types, flags))
    for flags in itertools.product((False, True), repeat=3):
        out.append(("skip", (), 1, (), flags))
    # partitions chosen by a function: types that some of the partitions do not have
    for k in (1, 2, 3):
        for types in itertools.product((0, 1, 3), repeat=k):
            for where in itertools.product(range(3), repeat=k):
                for flags in itertools.product((False, True), repeat=2) if k < 3 else ((False, False),):
                    for threads in (False, True):
                        out.append(("queue", W[2:2 + k], 3, types, flags + (False,), where, threads))
    for n in (7, 10, 33, 100):
        for base in range(4):
            out.append(("one", tuple(W[(i * (base + 3) + i * i) % len(W)] for i in range(n)), 1, 0))
            out.append(("one", tuple(1.0 + (i * 7 + base) % 5 for i in range(n)), 1, 0))
            out.append(("one", (0.1,) * n + (0.0,) * base, 1, 0))
    # tables that need wide row numbers, and identifiers that need wide fields
    for n in (255, 256, 257, 300, 1000):
        for heavy in (0, n // 2, n - 1):
            out.append(("one", tuple(100.0 if i == heavy else 0.5 for i in range(n)), 1, 0))
            out.append(("one", tuple(1.0 + (i >= heavy) * 2 for i in range(n)), 1, 0))
    out.append(("one", tuple(3.0 if i >= 65530 else 1.0 for i in range(65560)), 1, 0))
    for start in (100, 2 ** 16 - 1, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 53 - 1, 2 ** 63 - 8):
        for ws in itertools.product((0.1, 1.0, 3.0), repeat=3):
            out.append(("ids", ws, 1, 0, start))
    return out


def judge_table(rows, elems, what):
    """elems: [(element, weight)]"""
    bad = []
    if sorted(r[0] for r in rows) != sorted(e for e, _ in elems):
        return ["%s has rows %r for elements %r" % (what, rows, elems)]
    ids = {e for e, _ in elems}
    n = len(rows)
    mass = {}
    for left, right, pr in rows:
        if not 0 <= pr <= 1:
            return ["%s has probability %r: %r for %r" % (what, pr, rows, elems)]
        mass[left] = mass.get(left, 0) + pr / n
        if pr < 1:
            if right not in ids:
                return ["%s names %r which is not of this type: %r" % (what, right, rows)]
            mass[right] = mass.get(right, 0) + (1 - pr) / n
    total = sum(w for _, w in elems)
    if total > 0:
        want = {}
        for e, w in elems:
            want[e] = want.get(e, 0) + w / total
        for e in want:
            if abs(mass.get(e, 0) - want[e]) > TOL:
                bad.append("%s gives %r mass %r, should be %r; rows %r" % (what, e, mass.get(e, 0), want[e], rows))
                break
    return bad


def run(case, t):
    kind, ws, parts, types = case[:4]
    skip_n, skip_e, debug = case[4] if kind in ("skip", "queue") else (False, False, False)
    if debug and parts > 1:
        return
    graph = []
    start = case[4] if kind == "ids" else 0
    for i, w in enumerate(ws):
        tp = 0 if types == 0 else types[i]
        # edges of this node: same weights in another order, two per node when it matters
        e = ((start + i + 1, tp, ws[-1 - i], ()),) + (((0, tp + 1, w, ()),) if i % 2 and kind == "two" else ())
        graph.append((start + i, tp, w, (), e))
    kw = {}
    if skip_n:
        kw["skip_node_sampler"] = True
    if skip_e:
        kw["skip_edge_sampler"] = True
    if debug:
        kw["debug"] = True
    text = [L.to_json(n) + "\n" for n in graph]
    if kind == "queue":
        where, threads = case[5:]
        to = {x.strip(): p for x, p in zip(text, where)}
        _, decoders, dispatcher, _ = L.prepare()
        skip = dict(kw)
        kw["make_dispatcher"] = lambda: dispatcher.QueueDispatcher(
            "vpfs://out", parts, lambda x: to[x.strip()], decoders.JsonDecoder(), use_threads=threads, **skip)
    with contextlib.redirect_stdout(io.StringIO()):
        e = L.convert_text({"g.json": "".join(text)}, None, parts, **kw)
    t.evals += 1
    t.trans += e.steps
    bad = []
    if e.outcome or e.error or e.thread_errors:
        bad.append("conversion failed: %r %r %r" % (e.outcome, e.error, e.thread_errors))
    else:
        files = L.output()
        nt = max([n[1] for n in graph] + [-1]) + 1
        et = max([x[1] for n in graph for x in n[4]] + [-1]) + 1
        seen = []
        used = range(parts)
        if kind == "queue":
            bad += L.judge_conversion(e, graph, listed=True)   # partitions without nodes may be left out
            used = sorted(set(where))
        for p in used:
            try:
                na, ea = L.aliases(files, "node", p), L.aliases(files, "edge", p)
                ids = {n[0] for n in L.read_partition(files, p)[0]}
            except L.Bad as x:
                bad.append("tables %s" % x)
                continue
            if kind == "queue" and ids != {n[0] for n, x in zip(graph, where) if x == p}:
                bad.append("partition %d has nodes %r, should be by %r" % (p, sorted(ids), where))
            mine = [n for n in graph if n[0] in ids]
            if sorted(na) != ([] if skip_n else list(range(nt))):
                bad.append("node tables of partition %d are for types %r, should be %r" % (
                    p, sorted(na), [] if skip_n else list(range(nt))))
            if sorted(ea) != ([] if skip_e else list(range(et))):
                bad.append("edge tables of partition %d are for types %r, should be %r" % (
                    p, sorted(ea), [] if skip_e else list(range(et))))
            for tp, rows in na.items():
                bad += judge_table(rows, [(n[0], n[2]) for n in mine if n[1] == tp], "node table %d" % tp)
            for tp, rows in ea.items():
                bad += judge_table(rows, [((n[0], x[0]), x[2]) for n in mine for x in n[4] if x[1] == tp],
                                   "edge table %d" % tp)
            seen.append((sorted(na.items()), sorted(ea.items())))
        t.state(seen)
    for b in bad:
        t.violation("%s%s" % (" ".join(b.split(" ")[:2]), ":debug" if debug else ""),
                    "%s; weights %.200r types %r partitions %d" % (b[:500], ws, types, parts), case)
    t.sample({"weights": repr(ws)[:100], "types": types})


L.main(check, run, cases())
