"""C02: the same graph in JSON, edge list or TSV form converts to the same graph."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import numpy as np  # noqa: E402

check = H.Check("C02", rule="one evaluation = one record (or sequence of lines) decoded from every text form that can "
                "express it and compared with the record it was written from, or converted and compared byte by byte; "
                "distinct = different decoded records",
                assumptions=["TSV cannot express sparse features or strings with its separators",
                             "a missing feature and a feature without values are the same"])

DT = sorted(L.JSON_KEYS)
VALS = {"float64": (0.1, -2.5), "float32": (1.5, 0.25), "float16": (0.5, 2.0), "uint64": (2 ** 64 - 1, 7),
        "int64": (-2 ** 63, 2 ** 53 + 1), "uint32": (2 ** 32 - 1, 0), "int32": (-7, 9), "uint16": (65535, 1),
        "int16": (-32768, 2), "uint8": (255, 0), "int8": (-128, 127)}
F = [None] + [("d", d, VALS[d]) for d in DT] + [("d", "int32", (3,)), ("d", "float32", ())]
F += [("s", x) for x in ("a", "", "x y", "é", "a,b", ",", "a\\b", ",,", "a,", " b", "1", "a/b", "int32", '"q"', "a\\\\", "\\\\", "\\\\,", "a^^", "^^|", "a|b", "|", "\\n", "日本", "a b c")]
F += [("sp", "int32", (1, 5), (7, 8)), ("sp", "float32", ((0, 1), (2, 3)), (0.5, 1.0)), ("sp", "uint8", (3,), (1,)),
      ("sp", "float16", ((1, 2, 3),), (1.0,)), ("sp", "int64", (), ())]
SMALL = [("d", "int32", (5, 6)), None, ("d", "int32", (3,)), ("s", "a,b"), ("sp", "int32", (1, 5), (7, 8)), ("d", "float32", (1.5, 0.25))]


def norm(f):
    """Canonical form of a decoded feature."""
    if f is None:
        return None
    if isinstance(f, tuple):
        c, v = np.asarray(f[0]), np.asarray(f[1])
        if c.size == 0 or v.size == 0:
            return None
        return ("sp", str(v.dtype), c.tolist(), v.tolist())
    if isinstance(f, np.ndarray):
        return ("d", str(f.dtype), f.tolist()) if f.size else None
    return ("s", f) if f else None


def model_feature(f):
    if f is None:
        return None
    if f[0] == "s":
        return f if f[1] else None
    if f[0] == "d":
        return ("d", f[1], np.array(f[2], dtype=f[1]).tolist()) if f[2] else None
    if not f[2]:
        return None
    return ("sp", f[1], np.array(f[2], dtype=np.int64).tolist(), np.array(f[3], dtype=f[1]).tolist())


def cut(fs):
    fs = list(fs)
    while fs and fs[-1] is None:
        fs.pop()
    return fs


def model(node):
    nid, tp, w, feats, edges = node
    out = [(nid, -1, tp, float(w), cut(model_feature(f) for f in feats))]
    for d, t, ew, ef in L.sort_edges(edges):
        out.append((nid, d, t, float(ew), cut(model_feature(f) for f in ef)))
    return out


LONGEST = []        # number of features of every decoded record, empty ones included


def records(dec, lines):
    out = []
    for ln in lines:
        for src, dst, tp, w, _c, _r, feats in dec.decode(ln):
            got = [norm(f) for f in feats]
            out.append((int(src), int(dst), int(tp), float(w), cut(got)))
            LONGEST.append(len(got))
    return out


def tsv_ok(node):
    for fs in [node[3]] + [e[3] for e in node[4]]:
        for f in fs:
            if f and (f[0] == "sp" or f[0] == "s" and any(c in f[1] for c in ";:|,\t")):
                return False
    return True


def forms(node, t):
    D = L.prepare()[1]
    yield "json", D.JsonDecoder(), [L.to_json(node)]
    yield "json_swapped", D.JsonDecoder(), [swapped_json(node)]
    for k in range(1, max([len(node[3])] + [len(e[3]) for e in node[4]])):
        yield "json_rotated", D.JsonDecoder(), [swapped_json(node, k)]
        yield "json_rotated", D.JsonDecoder(), [swapped_json(node, k, 1)]
    yield "edge_list", D.EdgeListDecoder(), L.to_edge_list(node)
    yield "edge_list_alt", D.EdgeListDecoder(delimiter="|", length_delimiter=":", binary_escape="^"), \
        L.to_edge_list(node, "|", ":", "^")
    tp, w = node[1], node[2]
    ets = {e[1] for e in node[4]}
    ews = {e[2] for e in node[4]}
    for bits in itertools.product((0, 1), repeat=5):
        if not any(bits) or bits[1] and len(ets) > 1 or bits[3] and len(ews) > 1:
            continue
        nf = [f for f in node[3]]
        if bits[4] and any(f is None for f in nf):
            continue
        kw = {}
        if bits[0]:
            kw["default_node_type"] = tp
        if bits[1] and ets:
            kw["default_edge_type"] = list(ets)[0]
        if bits[2]:
            kw["default_node_weight"] = w
        if bits[3] and ews:
            kw["default_edge_weight"] = list(ews)[0]
        if bits[4] and nf:
            kw["default_node_feature_types"] = [kind_of(f) for f in nf]
            kw["default_node_feature_lens"] = [length_of(f) for f in nf]
        yield "edge_list_defaults%s" % (bits,), D.EdgeListDecoder(**kw), short_lines(node, kw)
    if tsv_ok(node):
        yield "tsv", D.TsvDecoder(), [L.to_tsv(node)]


def swapped_json(node, turn=None, inner=0):
    """Same JSON record with keys and feature indices in the opposite order or rotated."""
    d = json.loads(L.to_json(node))

    def rev(x, deep=0):
        if isinstance(x, dict):
            items = list(x.items())
            items = items[::-1] if turn is None else items[turn:] + items[:turn] if deep >= inner else items
            return {k: (rev(v, deep + 1) if k != "edge" else [rev(e, deep) for e in v]) for k, v in items}
        return x
    return json.dumps(rev(d))


def short_lines(node, kw):
    nid, tp, w, feats, edges = node
    head = [str(nid), "-1"]
    if "default_node_type" not in kw:
        head.append(str(tp))
    if "default_node_weight" not in kw:
        head.append(repr(w))
    if "default_node_feature_types" in kw:
        fs = []
        for f in feats:
            x = L._el_features([f], ",", "/", "\\")
            fs += x[2:]
    else:
        fs = L._el_features(feats, ",", "/", "\\")
    lines = [",".join(head + fs)]
    for d, t, ew, ef in L.sort_edges(edges):
        e = [str(nid)]
        if "default_edge_type" not in kw:
            e.append(str(t))
        e.append(str(d))
        if "default_edge_weight" not in kw:
            e.append(repr(ew))
        lines.append(",".join(e + L._el_features(ef, ",", "/", "\\")))
    return lines


# -- malformed lines: (line, what must happen: "error", or the documented records) ------------
GOOD = (4, 1, 0.5, (("d", "int32", (3,)), ("s", "a")), ((2, 0, 1.0, (("d", "float32", (1.5,)),)), (1, 1, 2.0, ())))


def bad_json():
    d = json.loads(L.to_json(GOOD))
    for k in ("node_id", "node_type", "node_weight", "edge"):
        x = dict(d)
        del x[k]
        yield json.dumps(x), "error"
    for k in ("src_id", "dst_id", "edge_type", "weight"):
        x = json.loads(L.to_json(GOOD))
        del x["edge"][0][k]
        yield json.dumps(x), "error"
    for k in ("foo_feature", "sparse_foo_feature"):
        x = dict(d)
        x[k] = {"2": [1]} if k[0] == "f" else {"2": {"coordinates": [1], "values": [1]}}
        yield json.dumps(x), "error"
    x = dict(d)
    x["sparse_int32_feature"] = {"2": {"coordinates": [1]}}
    yield json.dumps(x), "error"
    x = dict(d)
    x["int32_feature"] = {"0": ["x"]}
    yield json.dumps(x), "error"
    s = L.to_json(GOOD)
    for k in range(len(s)):
        yield s[:k], "error"
    x = dict(d)
    x["float_feature"] = None
    x["int32_feature"] = {"0": [3], "2": []}
    yield json.dumps(x), model(GOOD)
    yield json.dumps({"node_id": 4, "node_type": 1, "node_weight": .5, "edge": []}), [(4, -1, 1, .5, [])]


def bad_list():
    yield "", []
    for ln in ("4", "4,-1", "4,-1,1", "x,-1,1,0.5", "4,y,1,0.5", "4,-1,z,0.5", "4,-1,1,w", "4,0,2", "4,0,q,1.0",
               ",-1,1,0.5", "4,,1,0.5", "4,-1,,0.5", "4,-1,1,", "4,-1,1,0.5,int32", "4,-1,1,0.5,int32,2,1",
               "4,-1,1,0.5,int32,1,x", "4,-1,1,0.5,int32,x,1", "4,-1,1,0.5,nope,1,1", "4,-1,1,0.5,int32,1/0,1",
               "4,-1,1,0.5,int32,2/2,1,2,3", "4,-1,1,0.5,binary,1", "4,-1,1,0.5,float32,1,", "4,-1,1,0.5,int32,1,1.5"):
        yield ln, "error"
    yield "4,-1,1,0.5,", [(4, -1, 1, .5, [])]
    for a, b in (("1", "0"), ("True", "False"), ("true", "false")):
        for x in itertools.product((0, 1), repeat=3):
            vs = ",".join((b, a)[i] for i in x)
            want = [bool(i) for i in x]
            yield "4,-1,1,0.5,bool,3,%s,int8,1,5" % vs, [(4, -1, 1, .5, [("d", "bool", want), ("d", "int8", [5])])]
            yield "4,1,2,0.5,bool,3/0,7,8,9,%s,int8,1,5" % vs, [(4, 2, 1, .5, [("sp", "bool", [7, 8, 9], want), ("d", "int8", [5])])]
    for ln in ("4,-1,1,0.5,bool,1,", "4,-1,1,0.5,bool,2,1", "4,-1,1,0.5,bool,1,x"):
        yield ln, "error"
    yield "4,-1,1,0.5,int32,0,int8,1,5", [(4, -1, 1, .5, [None, ("d", "int8", [5])])]


def bad_tsv():
    for ln in ("", "x\t0\t1.0", "\t0\t1.0", "4\tx", "4\t0\tx", "4\t0\t1.0\tx:1", "4\t0\t1.0\ti99:1", "4\t0\t1.0\ti32:x",
               "4\t0\t1.0\tf:1;x:2", "4\t0\t1.0\t\tx,0,1.0", "4\t0\t1.0\t\t,0,1.0", "4\t0\t1.0\t\t2,x,1.0",
               "4\t0\t1.0\t\t2,0,x", "4\t0\t1.0\t\t2,0,1.0,f:x", "4\t0\t1.0\ti32:1;q:2 3\t"):
        yield ln, "error"
    n = [(4, -1, 0, 0.0, [])]
    yield "4", n
    yield "4\t\t\t\t", n
    yield "4\t2", [(4, -1, 2, 0.0, [])]
    yield "4\t\t0.5", [(4, -1, 0, 0.5, [])]
    yield "4\t\t\t;i32:1", [(4, -1, 0, 0.0, [None, ("d", "int32", [1])])]
    yield "4\t\t\ti32:;i32:1", [(4, -1, 0, 0.0, [None, ("d", "int32", [1])])]
    yield "4\t\t\t\t7", n + [(4, 7, 0, 0.0, [])]
    yield "4\t\t\t\t7,", n + [(4, 7, 0, 0.0, [])]
    yield "4\t\t\t\t7,,0.5", n + [(4, 7, 0, 0.5, [])]
    yield "4\t\t\t\t7,1|5,,2.0|6", n + [(4, 5, 0, 2.0, []), (4, 6, 0, 0.0, []), (4, 7, 1, 0.0, [])]
    yield "4\t\t\t\t7,1,1.0,;f:1.5", n + [(4, 7, 1, 1.0, [None, ("d", "float32", [1.5])])]


BAD = {"json": list(bad_json()), "edge_list": list(bad_list()), "tsv": list(bad_tsv())}
GOODS = [GOOD, (1, 0, 1.0, (), ()), (2, 0, 0.5, (None, ("s", "b")), ((9, 0, 1.0, (None, ("d", "int8", (1,)))),))]


def decoder(form):
    D = L.prepare()[1]
    return {"json": D.JsonDecoder, "edge_list": D.EdgeListDecoder, "tsv": D.TsvDecoder}[form]()


def text(form, node):
    return {"json": lambda: [L.to_json(node)], "edge_list": lambda: L.to_edge_list(node),
            "tsv": lambda: [L.to_tsv(node)]}[form]()


def kind_of(f):
    return "binary" if f[0] == "s" else f[1]


def length_of(f):
    return [1] if f[0] == "s" else [len(f[2])] if f[0] == "d" else [len(f[3]), len(f[2][0]) if f[2] and isinstance(f[2][0], tuple) else 0]


def cases():
    out = []
    n = 2
    seqs = {tuple(cut(x)) for k in range(n + 1) for x in itertools.product(F, repeat=k)}
    seqs |= {tuple(cut(x)) for x in itertools.product(SMALL, repeat=4)}
    for fs in sorted(seqs, key=repr):
        out.append(("same", (3, 1, 0.5, fs, ())))
        out.append(("same", (3, 0, 2.0, (), ((1, 0, 0.25, fs), (0, 2, 1.0, (SMALL[2],))))))
    ea = [(d, t, w, f) for d in (0, 5) for t in (0, 1) for w in (1.0, 0.1) for f in ((), (("s", "a"),))]
    for k in range(4):
        for es in itertools.product(ea if k < 3 else ea[::3], repeat=k):
            out.append(("same", (7, 0, 1.0, (("d", "int8", (1,)),), es)))
    for ids in itertools.product((0, 1, 2 ** 40), (0, 1, 5), (0.0, 1.0, 0.1, 1e10)):
        out.append(("same", (ids[0], ids[1], ids[2], (), ((ids[0], ids[1], ids[2], ()),))))
    for form in BAD:
        for i in range(len(BAD[form])):
            out.append(("bad", form, i))
        other = range(len(BAD[form])) if form != "json" else list(range(14)) + list(range(14, len(BAD[form]), 9))
        for i in other:
            for a, b in itertools.product(range(len(GOODS)), repeat=2):
                out.append(("seq", form, (("g", a), ("b", i), ("g", b))))
            for j in other:
                out.append(("seq", form, (("b", i), ("b", j), ("g", 0))))
        for s in itertools.product(range(len(GOODS)), repeat=3):
            out.append(("seq", form, tuple(("g", x) for x in s)))
    # decoders told the types and lengths of some features
    # TSV lines that leave out columns of their neighbours or parts of their features
    short = [(d, cols) for d in (5, 7) for cols in [()] + [(a,) for a in TYPES] + [(a, w) for a in TYPES for w in ("", "0.5")] +
             [(a, "", f) for a in TYPES for f in ("", ":1", "i32:", "i32:1", "f:1.5;:2;b:x")]]
    for k in (1, 2):
        for es in itertools.product(short, repeat=k):
            out.append(("short", es))
    for es in itertools.permutations([x for x in short if len(x[1]) < 2], 3):
        out.append(("short", es))
    shapes = [SMALL[0], SMALL[3], SMALL[4], SMALL[5], ("d", "float32", ()), ("s", "")]
    for nf, ef in itertools.product([()] + [x for k in (1, 2) for x in itertools.product(shapes, repeat=k)], repeat=2):
        if len(nf) + len(ef) > 3 or not nf + ef:
            continue
        for masks in itertools.product(range(4), repeat=len(nf) + len(ef)):
            out.append(("told", nf, ef, masks))
    # every small size and the ones around powers of two
    for n in list(range(4, 21)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000]:
        out.append(("same", (1, 0, 1.0, (), tuple((d, d % 3, 1.0, (SMALL[2],) if d % 5 else ()) for d in range(n)))))
        out.append(("same", (1, n, 1.0, (), ((n, 2 * n, 0.5, ()), (3, 2 * n + 1, 0.5, ()), (n, 0, 0.5, ())))))
        for f in (("s", "ab" * n), ("s", "a,b" * n), ("d", "float64", tuple(i / 3 for i in range(n))), ("d", "uint8", tuple(i % 256 for i in range(n))),
                  ("sp", "int16", tuple(i * 2 ** 20 for i in range(n)), tuple(i - 9 for i in range(n))),
                  ("sp", "float32", tuple((i, i + 1, 2 ** 40) for i in range(n)), tuple(0.5 * i for i in range(n)))):
            out.append(("same", (1, 0, 1.0, (f, SMALL[0]), ((2, 0, 1.0, (SMALL[0], f)),))))
        if n <= 65:
            out.append(("same", (1, 0, 1.0, tuple((SMALL[0], SMALL[3], SMALL[5])[i % 3] for i in range(n)), ())))
    for a, b in itertools.product((0, 127, 2 ** 15, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1), repeat=2):
        out.append(("same", (a, 0, 1.0, (), ((b, 0, 1.0, ()), (a, 1, 1.0, ())))))
    for a, b in itertools.product((0.0, 1e-30, 1e-6, 0.1, 3.0, 16777217.0, 1e30), repeat=2):
        out.append(("same", (1, 0, a, (), ((2, 0, b, ()), (3, 1, a, ())))))
    small = [(), (SMALL[2],), (None, ("s", "zz"))]
    gs = []
    for n1, e1, n2 in itertools.product(small, repeat=3):
        gs.append(((1, 0, 1.0, n1, ((2, 1, 0.5, e1), (5, 0, 1.0, ()))), (2, 1, 0.25, n2, ())))
    for s in itertools.product(range(len(gs)), repeat=1):
        for p in (1, 2, 3):
            out.append(("convert", gs[s[0]], p))
    return out


TYPES = ("", "0", "2", "10")
PARTS = {"": [], ":1": [None], "i32:": [None], "i32:1": [("d", "int32", [1])],
         "f:1.5;:2;b:x": [("d", "float32", [1.5]), None, ("s", "x")]}


def short_edge(d, cols):
    tp, w, f = cols + ("",) * (3 - len(cols))
    return (4, d, int(tp or 0), float(w or 0), cut(PARTS[f]))


def run(case, t):
    kind = case[0]
    if kind == "short":
        line = "4\t\t\t\t" + "|".join(",".join((str(d),) + cols) for d, cols in case[1])
        want = [(4, -1, 0, 0.0, [])] + sorted((short_edge(*e) for e in case[1]), key=lambda e: (e[2], e[1]))
        t.evals += 1
        t.trans += 1
        try:
            got = records(decoder("tsv"), [line])
        except Exception as e:
            got = repr(e)
        t.state(got)
        if got != want:
            t.violation("tsv:short", "TSV line %r gives %r, should be %r" % (line, got, want), case)
        return
    if kind == "same":
        node = case[1]
        want = model(node)
        for name, dec, lines in forms(node, t):
            t.evals += 1
            t.trans += len(lines)
            del LONGEST[:]
            try:
                got = records(dec, lines)
            except Exception as e:
                t.violation("%s:error" % name.split("_defaults")[0], "%s form of %r is refused: %r (lines %r)" % (
                    name, node, e, lines), case)
                continue
            if got != want:
                t.violation("%s:differs" % name.split("_defaults")[0], "%s form of %r decodes to %r (lines %r)" % (
                    name, node, got, lines), case)
            else:
                most = [len(node[3])] + [len(x[3]) for x in L.sort_edges(node[4])]
                if any(a > b for a, b in zip(LONGEST, most)):
                    t.violation("%s:extra" % name.split("_defaults")[0], "%s form of %r has %r features, should be %r" % (
                        name, node, LONGEST, most), case)
            t.state(got)
    elif kind == "told":
        _, nf, ef, masks = case
        node = (3, 1, 0.5, nf, ((1, 0, 0.25, ef), (4, 2, 1.0, ef)))
        nm, em = masks[:len(nf)], masks[len(nf):]
        kw = {"default_node_feature_types": [kind_of(f) if m & 1 else None for f, m in zip(nf, nm)],
              "default_node_feature_lens": [length_of(f) if m & 2 else None for f, m in zip(nf, nm)],
              "default_edge_feature_types": [kind_of(f) if m & 1 else None for f, m in zip(ef, em)],
              "default_edge_feature_lens": [length_of(f) if m & 2 else None for f, m in zip(ef, em)]}

        def left_out(fs, ms):
            out = []
            for f, m in zip(fs, ms):
                x = L._el_features([f], ",", "/", "\\")
                out += ([] if m & 1 else x[:1]) + ([] if m & 2 else x[1:2]) + x[2:]
            return out
        lines = [",".join(["3", "-1", "1", "0.5"] + left_out(nf, nm))]
        lines += [",".join(["3", tp, dst, w] + left_out(ef, em)) for tp, dst, w in (("0", "1", "0.25"), ("2", "4", "1.0"))]
        t.evals += 1
        t.trans += 3
        try:
            got = records(L.prepare()[1].EdgeListDecoder(**kw), lines)
        except Exception as e:
            t.violation("told:error", "%r are refused with %r: %r" % (lines, kw, e), case)
            return
        if got != model(node):
            t.violation("told:differs", "%r with %r decode to %r, should be %r" % (lines, kw, got, model(node)), case)
        t.state(got)
    elif kind == "bad":
        _, form, i = case
        line, want = BAD[form][i]
        t.evals += 1
        t.trans += 1
        try:
            got = records(decoder(form), [line])
        except Exception as e:
            got = "error"
            if want != "error":
                t.violation("%s:default" % form, "%s line %r should give %r but is refused: %r" % (form, line, want, e), case)
        t.state(form, got)
        if got != want and got != "error":
            t.violation("%s:accepted" % form, "%s line %r gives %r, should be %r" % (form, line, got, want), case)
    elif kind == "seq":
        _, form, seq = case
        dec = decoder(form)
        t.evals += 1
        for pos, (k, i) in enumerate(seq):
            t.trans += 1
            if k == "b":
                try:
                    records(dec, [BAD[form][i][0]])
                except Exception:
                    pass
                continue
            try:
                got = records(dec, text(form, GOODS[i]))
            except Exception as e:
                got = repr(e)
            if got != model(GOODS[i]):
                t.violation("%s:neighbour" % form, "in sequence %r line %d decodes to %r, alone it is %r" % (
                    seq, pos, got, model(GOODS[i])), case)
        t.state(form, [k for k, _ in seq])
    else:
        _, graph, parts = case
        D = L.prepare()[1]
        outs = {}
        for form, dec in (("json", D.JsonDecoder), ("tsv", D.TsvDecoder), ("edge_list", D.EdgeListDecoder)):
            if form == "edge_list" and parts > 1:
                continue
            lines = [x for n in graph for x in text(form, n)]
            e = L.convert_text({"g.txt": "".join(x + "\n" for x in lines)}, dec, parts)
            t.evals += 1
            t.trans += e.steps
            if e.error or e.outcome or e.thread_errors:
                t.violation("%s:convert" % form, "%r: %r %r %r" % (graph, e.error, e.outcome, e.thread_errors), case)
                return
            outs[form] = L.output()
        first = outs["json"]
        for form, o in outs.items():
            if o != first:
                names = sorted(k for k in set(o) | set(first) if o.get(k) != first.get(k))
                t.violation("%s:files" % form, "%s and json conversion of %r differ in %r" % (form, graph, names), case)
        t.state(sorted(first.items()))
    t.sample(repr(case)[:200])


L.main(check, run, cases())
