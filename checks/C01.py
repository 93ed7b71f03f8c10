"""C01: conversion to binary preserves every node, edge, feature and weight."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402

check = H.Check("C01", rule="one evaluation = one conversion whose files are decoded by an independent reader and "
                "compared with the input graph; distinct = different decoded graphs and metadata",
                assumptions=["node ids fit in 63 bits", "types are non-negative integers (documented)"])

DENSE = [("d", "float32", (1.5, -2.0)), ("d", "float64", (0.1,)), ("d", "float16", (0.5, 3.0, 1.0)),
         ("d", "uint64", (2 ** 64 - 1, 0)), ("d", "int64", (-2 ** 63,)), ("d", "uint32", (2 ** 32 - 1,)),
         ("d", "int32", (-2 ** 31, 5)), ("d", "uint16", (65535,)), ("d", "int16", (-32768, 1, 2)),
         ("d", "uint8", (255, 0, 1)), ("d", "int8", (-128,))]
STRINGS = [("s", "a"), ("s", "éx"), ("s", "")]
SPARSE = [("sp", "int32", (1, 5), (7, -8)), ("sp", "float32", ((0, 1), (2, 3)), (0.5, 1.0)),
          ("sp", "float16", (3,), (1.0,)), ("sp", "uint8", ((1, 2, 3),), (9,)), ("sp", "int64", (), ()),
          ("sp", "float64", (4, 9, 11), (1.0, 2.0, 3.0))]
FEATURES = [None] + DENSE + STRINGS + SPARSE
FEW = [None, ("d", "int16", (1, 2, 3)), ("s", "abc"), ("sp", "int32", (2,), (4,)), ("d", "float32", (1.0,))]


def trim(fs):
    fs = list(fs)
    while fs and fs[-1] is None:
        fs.pop()
    return tuple(fs)


def upto(alphabet, n):
    for k in range(n + 1):
        yield from itertools.product(alphabet, repeat=k)


def ladders():
    """Every small size and the ones around powers of two, one dimension at a time"""
    out = []
    sizes = list(range(4, 21)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
    ids = (0, 1, 127, 128, 255, 256, 2 ** 15, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1)
    weights = (0.0, 1e-30, 1e-6, 0.1, 1.0, 3.0, 1e6, 16777217.0, 1e30)
    for n in sizes + [512, 1000, 1025]:
        for p in (1, 3, 7):
            nodes = tuple((i * 3, i % 5, 1.0 + i % 3, (FEW[1 + i % 4],) if i % 3 else (), ((i * 3 + 3, 0, 1.0, ()),) if i % 2 else ()) for i in range(n))
            out.append(("json", nodes, p))
        out.append(("json", ((1, 0, 1.0, (), tuple((d, 0, 1.0 + d % 3, (FEW[1],) if d % 7 == 0 else ()) for d in range(n))), (2, 0, 1.0, (), ((1, 0, 1.0, ()),))), 1))
        if n <= 300:
            # many types, features, lengths
            out.append(("json", ((1, 0, 1.0, (), tuple((d % 3, d, 1.0, ()) for d in range(n))), (2, n, 1.0, (), ((1, 0, 1.0, ()),))), 1))
            out.append(("json", ((1, 0, 1.0, (), ((2, n, 1.0, (FEW[1],)),)), (2, n + 1, 1.0, (), ((1, 2, 1.0, ()),))), 2))
            for f in (tuple(FEW[1 + i % 4] for i in range(n)), (None,) * n + (FEW[2],), tuple(FEW[3] if i % 4 == 0 else None for i in range(n)) + (FEW[1],)):
                out.append(("json", ((1, 0, 1.0, f, ((2, 0, 1.0, f),)), (2, 0, 1.0, f[:1], ())), 1))
        for f in (("s", "ab" * n), ("d", "float64", tuple(float(i) for i in range(n))), ("d", "uint8", tuple(i % 256 for i in range(n))),
                  ("sp", "int16", tuple(i * 2 ** 20 for i in range(n)), tuple(i - 9 for i in range(n))),
                  ("sp", "float32", tuple((i, i + 1, 2 ** 40) for i in range(n)), tuple(0.5 * i for i in range(n)))):
            out.append(("json", ((1, 0, 1.0, (f,), ((2, 0, 1.0, (FEW[1], f)),)), (2, 0, 1.0, (f, FEW[2]), ())), 1))
    for n in (32767, 32768, 65535, 65536, 70001):
        f = ("s", "x" * n)
        out.append(("json", ((1, 0, 1.0, (f,), ((2, 0, 1.0, (f,)), (3, 0, 1.0, (FEW[1],)))), (2, 0, 1.0, (FEW[2],), ())), 1))
    for a, b in itertools.product(ids, repeat=2):
        for p in (1, 2):
            out.append(("json", ((a, 0, 1.0, (FEW[1],), ((b, 0, 1.0, ()), (a, 1, 1.0, (FEW[2],)))),) + (((b, 1, 2.0, (), ()),) if a != b else ()), p))
    for a, b in itertools.product(weights, repeat=2):
        out.append(("json", ((1, 0, a, (), ((2, 0, b, ()),)), (2, 0, b, (), ((1, 1, a, ()),))), 1))
    for a in ("\t", "a\tb", "\"", "'", "\\", "\\n", "\n", "\r\n", "a,b", ";", "|", ":", "\0", "a\0b", "\x7f", "\x85", "\u2028", "\U0001f600", " ", " a ", "None", "{}"):
        for b in ("", "z"):
            out.append(("json", ((1, 0, 1.0, (("s", a), ("s", b)), ((2, 0, 1.0, (("s", b + a),)),)), (2, 0, 1.0, (("s", b),), ())), 1))
    return out


def cases():
    out = [("json", (), p) for p in (1, 2)]
    # shapes: nodes, types, neighbour lists in any order, duplicates
    ea = [(d, t, w, ()) for d in (0, 5) for t in (0, 2) for w in (1.0, 0.1)]
    for i, es in enumerate(upto(ea, 3)):
        for p in (1, 2):
            out.append(("json", ((2 ** 40, i % 3, 0.25, (), es),), p))
    eb = [(0, 0, 1.0, ()), (1, 0, 0.5, ()), (1, 1, 2.0, ()), (7, 3, 1.0, ())]
    two = list(upto(eb, 2))
    for (i, a), b in itertools.product(enumerate(two), two):
        for t in ((0, 0), (0, 1), (1, 0), (2, 2)) if H.THOROUGH or i % 2 == 0 else ((1, 0), (0, 0)):
            for p in (1, 2, 3):
                out.append(("json", ((0, t[0], 1.0, (), a), (1, t[1], 2.0, (), b)), p))
    one = list(upto(eb[1:], 1))
    for a, b, c in itertools.product(one, repeat=3):
        for t in itertools.product((0, 1, 2), repeat=3):
            for p in (1, 2):
                out.append(("json", ((0, t[0], 1.0, (), a), (1, t[1], 0.5, (), b), (7, t[2], 3.0, (), c)), p))
    # features of one node / of one edge
    fseqs = {trim(x) for x in itertools.chain(upto(FEATURES, 2), itertools.product(FEW, repeat=3))}
    if H.THOROUGH:
        fseqs |= {trim(x) for x in itertools.product(FEATURES, repeat=3)}
    for fs in sorted(fseqs, key=repr):
        out.append(("json", ((1, 0, 1.0, fs, ()),), 1))
        out.append(("json", ((1, 0, 1.0, fs, ()), (2, 1, 1.0, (FEW[2],), ())), 1))
        out.append(("json", ((1, 0, 1.0, (), ((2, 0, 1.0, fs), (3, 0, 1.0, (FEW[1],)))),), 1))
    # features spread over owners
    sets = [(), (FEW[2],), (None, FEW[1])]
    for n1, n2, e1, e2, e3 in itertools.product(sets, repeat=5):
        for p in (1, 2):
            out.append(("json", ((1, 0, 1.0, n1, ((2, 0, 1.0, e1), (3, 0, 1.0, e2))),
                                 (2, 0, 1.0, n2, ((1, 0, 1.0, e3),))), p))
    # edge list: edges apart from their node, in every order
    lines = [("n", 0, 0), ("n", 1, 1), ("e", 0, 1, 0), ("e", 0, 1, 1), ("e", 1, 0, 0)]
    for seq in upto(lines, 5 if H.THOROUGH else 4):
        for p in (1, 2, 3):
            out.append(("list", seq, p))
    out += ladders()
    for c in [c for c in out if c[0] == "json" and c[2] == 1][:400:3]:
        out.append(("debug",) + c[1:])
    return out


def run(case, t):
    kind, body, parts = case
    if kind == "list":
        graph, text, ok = [], [], True
        last = {}
        for i, ln in enumerate(body):
            k = i % parts
            if ln[0] == "n":
                f = (("s", "n%d" % i),)
                graph.append((ln[1], ln[2], 1.0 + i, f, ()))
                text += L.to_edge_list(graph[-1])
                last[k] = (ln[1], -1)
            else:
                e = (ln[2], ln[3], 1.0 + i, (("d", "int32", (i,)),) if i % 2 else ())
                graph.append((ln[1], None, 0, (), (e,)))
                text += L.to_edge_list((ln[1], 0, 0.0, (), (e,)))[1:]
                if last.get(k, (None, -1))[0] == ln[1] and last[k][1] > ln[3]:
                    ok = False
                last[k] = (ln[1], ln[3])
        # the weight of a node is its position, so repeated nodes have no single weight: skip those
        ids = [n[0] for n in graph if n[1] is not None]
        if not ok or len(ids) != len(set(ids)):
            t.count("skipped_not_wellformed")
            return
        e = L.convert_text({"g.csv": "".join(x + "\n" for x in text)}, L.prepare()[1].EdgeListDecoder, parts)
    else:
        graph = body
        kw = {"debug": True} if kind == "debug" else {}
        with contextlib.redirect_stdout(io.StringIO()):
            e = L.convert_text({"g.json": "".join(L.to_json(n) + "\n" for n in graph)}, None, parts, **kw)
    t.evals += 1
    t.trans += e.steps
    bad = L.judge_conversion(e, graph)
    for b in bad:
        t.violation("%s:%s" % (kind, b.split(" ")[0]), "%s; input %r, %d partitions" % (b, body, parts), case)
    if not bad:
        m, ps = L.load(L.output())
        t.state(m, L.stored(ps))
    t.sample({"input": repr(body)[:200], "partitions": parts})


L.main(check, run, cases())
