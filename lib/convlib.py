"""Small graphs, their three text forms, the conversion driver and an independent reader of the
binary format (written from the format, shares no code with the repository)."""
import gc
import json
import os
import shutil
import struct
import tempfile

import harness as H
import sched

sched.install()
import numpy as np  # noqa: E402
import vpfs  # noqa: E402

H.quiet_logging()
np.seterr(all="ignore")


# -- model ---------------------------------------------------------------------------------
# feature: None | ("d", dtype, values) | ("s", text) | ("sp", dtype, coords, values)
# edge: (dst, type, weight, features)       node: (id, type, weight, features, edges)
JSON_KEYS = {"float64": "double_feature", "float32": "float_feature", "float16": "float16_feature",
             "uint64": "uint64_feature", "int64": "int64_feature", "uint32": "uint32_feature",
             "int32": "int32_feature", "uint16": "uint16_feature", "int16": "int16_feature",
             "uint8": "uint8_feature", "int8": "int8_feature"}
TSV_KEYS = {"float64": "d", "float32": "f", "float16": "f16", "uint64": "u64", "int64": "i64", "uint32": "u32",
            "int32": "i32", "uint16": "u16", "int16": "i16", "uint8": "u8", "int8": "i8"}


def feature_bytes(f):
    """Stored bytes of a feature; b'' when there is none."""
    if f is None:
        return b""
    if f[0] == "d":
        return np.array(f[2], dtype=f[1]).tobytes()
    if f[0] == "s":
        return f[1].encode("utf-8")
    if not len(f[2]) or not len(f[3]):
        return b""
    c = np.array(f[2], dtype=np.int64)
    dim = c.shape[-1] if c.ndim > 1 else 1
    return struct.pack("=II", c.size, dim) + c.tobytes() + np.array(f[3], dtype=f[1]).tobytes()


def _json_features(out, features):
    for i, f in enumerate(features):
        if f is None:
            continue
        if f[0] == "d":
            out.setdefault(JSON_KEYS[f[1]], {})[str(i)] = list(f[2])
        elif f[0] == "s":
            out.setdefault("binary_feature", {})[str(i)] = f[1]
        else:
            out.setdefault("sparse_" + JSON_KEYS[f[1]], {})[str(i)] = {
                "coordinates": [list(c) if isinstance(c, tuple) else c for c in f[2]], "values": list(f[3])}


def to_json(node):
    nid, tp, w, feats, edges = node
    d = {"node_id": nid, "node_type": tp, "node_weight": w}
    _json_features(d, feats)
    d["edge"] = []
    for dst, et, ew, ef in edges:
        e = {"src_id": nid, "dst_id": dst, "edge_type": et, "weight": ew}
        _json_features(e, ef)
        d["edge"].append(e)
    return json.dumps(d)


def _el_features(features, delim, ld, esc):
    out = []
    for f in features:
        if f is None:
            out += ["int32", "0"]
        elif f[0] == "d":
            out += [f[1], str(len(f[2]))] + [repr(v) for v in f[2]]
        elif f[0] == "s":
            out += ["binary", "1", f[1].replace(delim, esc + delim)]
        else:
            c = f[2]
            dim = len(c[0]) if c and isinstance(c[0], tuple) else 0
            out += [f[1], "%d%s%d" % (len(f[3]), ld, dim)]
            out += [str(x) for y in c for x in (y if isinstance(y, tuple) else (y,))]
            out += [repr(v) for v in f[3]]
    return out


def sort_edges(edges):
    return sorted(edges, key=lambda e: (e[1], e[0]))


def to_edge_list(node, delim=",", ld="/", esc="\\"):
    nid, tp, w, feats, edges = node
    lines = [delim.join([str(nid), "-1", str(tp), repr(w)] + _el_features(feats, delim, ld, esc))]
    for dst, et, ew, ef in sort_edges(edges):
        lines.append(delim.join([str(nid), str(et), str(dst), repr(ew)] + _el_features(ef, delim, ld, esc)))
    return lines


def _tsv_features(features):
    out = []
    for f in features:
        if f is None:
            out.append("")
        elif f[0] == "d":
            out.append("%s:%s" % (TSV_KEYS[f[1]], " ".join(repr(v) for v in f[2])))
        else:
            out.append("b:" + f[1])
    return ";".join(out)


def to_tsv(node):
    nid, tp, w, feats, edges = node
    nb = "|".join("%d,%d,%r,%s" % (d, t, ew, _tsv_features(ef)) for d, t, ew, ef in edges)
    return "\t".join([str(nid), str(tp), repr(w), _tsv_features(feats), nb])


# -- conversion ----------------------------------------------------------------------------
_ready = [None]


def prepare():
    """Import the code under test; temporary files go to the scratch directory of the worker."""
    if _ready[0] is None:
        d = os.path.join(H.scratch(), "t%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        tempfile.tempdir = d
        import deepgnn.graph_engine.snark.convert as convert
        import deepgnn.graph_engine.snark.decoders as decoders
        import deepgnn.graph_engine.snark.dispatcher as dispatcher
        import deepgnn.graph_engine.snark.meta_merger as meta_merger
        _ready[0] = (convert, decoders, dispatcher, meta_merger)
        # first use imports modules and fills caches, which would make the first schedule special
        convert_text({"g.json": to_json((1, 0, 1.0, (), ((2, 0, 1.0, ()),))) + "\n"}, partitions=1)
        vpfs.reset()
    return _ready[0]


class Failed(Exception):
    pass


def run(fn, script=(), bound=0, max_steps=200000):
    e = sched.Execution(list(script), bound, max_steps=max_steps)
    e.run(fn)
    return e


def convert_text(files, decoder=None, partitions=1, workers=1, merge=None, keep=False, make_dispatcher=None, **kw):
    """Convert input files {name: text}; returns the execution. Output is under vpfs://out."""
    convert, decoders, _, meta_merger = prepare()
    old = dict(vpfs.VpFS.files) if keep else {}
    vpfs.reset(old)
    for n, text in files.items():
        vpfs.VpFS.files["/in/" + n] = text.encode("utf-8")
    src = "vpfs://in/" + sorted(files)[0] if len(files) == 1 else "vpfs://in"

    def go():
        for i in range(workers):
            dec = decoder() if callable(decoder) and not isinstance(decoder, type) else decoder
            if make_dispatcher:
                kw["dispatcher"] = make_dispatcher()
            convert.MultiWorkersConverter(
                graph_path=src, output_dir="vpfs://out", decoder=dec, partition_count=partitions,
                worker_index=i, worker_count=workers, thread_count=1, **kw).convert()
        if merge if merge is not None else workers > 1:
            meta_merger.merge_metadata_files("vpfs://out")
    return run(go)


def output():
    return {k[len("/out/"):]: v for k, v in vpfs.VpFS.files.items() if k.startswith("/out/")}


# -- independent reader --------------------------------------------------------------------
class Bad(Exception):
    """The files are not a well-formed graph."""


def _need(cond, text, *a):
    if not cond:
        raise Bad(text % a)


def _u64(b, name):
    _need(len(b) % 8 == 0, "%s: size %d is not a multiple of 8", name, len(b))
    return list(struct.unpack("=%dQ" % (len(b) // 8), b))


def _alias(b, fmt, k):
    size = struct.calcsize(fmt)
    _need(len(b) % size == 0, "alias table size %d", len(b))
    return [struct.unpack_from(fmt, b, i) for i in range(0, len(b), size)]


def read_partition(files, p):
    """Nodes [(id, type, features, edges)], edge: (dst, type, weight, features, times)."""
    def get(n):
        _need(n in files, "file %s is missing", n)
        return files[n]
    nm = get("node_%d_0.map" % p)
    _need(len(nm) % 20 == 0, "node map size %d", len(nm))
    recs = [struct.unpack_from("=QQi", nm, i) for i in range(0, len(nm), 20)]
    ni = _u64(get("node_%d_0.index" % p), "node index")
    nfi = _u64(get("node_features_%d_0.index" % p), "node feature index")
    nfd = get("node_features_%d_0.data" % p)
    nbi = _u64(get("neighbors_%d_0.index" % p), "neighbour index")
    ei = get("edge_%d_0.index" % p)
    _need(len(ei) % 24 == 0 and len(ei) >= 24, "edge index size %d", len(ei))
    es = [struct.unpack_from("=QQif", ei, i) for i in range(0, len(ei), 24)]
    efi = _u64(get("edge_features_%d_0.index" % p), "edge feature index")
    efd = get("edge_features_%d_0.data" % p)
    _need(len(ni) == len(recs) + 1, "%d node index entries for %d nodes", len(ni), len(recs))
    _need(len(nbi) == len(recs) + 1, "%d neighbour index entries for %d nodes", len(nbi), len(recs))
    _need(ni[-1] == len(nfi) - 1, "node index ends at %d, feature index has %d", ni[-1], len(nfi))
    _need(nfi[-1] == len(nfd), "node feature data ends at %d, index says %d", len(nfd), nfi[-1])
    _need(nbi[-1] == len(es) - 1, "neighbour index ends at %d, %d edges", nbi[-1], len(es) - 1)
    _need(es[-1][1] == len(efi) - 1, "edge index ends at %d, feature index has %d", es[-1][1], len(efi))
    _need(efi[-1] == len(efd), "edge feature data ends at %d, index says %d", len(efd), efi[-1])
    for name, xs in (("node", ni), ("node feature", nfi), ("neighbour", nbi), ("edge feature", efi),
                     ("edge", [x[1] for x in es])):
        _need(all(a <= b for a, b in zip(xs, xs[1:])), "%s index decreases: %r", name, xs)
    times = None
    mark = None
    tn = "edge_%d_0.timestamp" % p
    if tn in files:
        tb = files[tn]
        _need(len(tb) == 8 + 16 * (len(es) - 1), "timestamp size %d for %d edges", len(tb), len(es) - 1)
        mark = struct.unpack_from("=Q", tb)[0]
        times = [struct.unpack_from("=qq", tb, 8 + 16 * i) for i in range(len(es) - 1)]
    _need(sorted(r[1] for r in recs) == list(range(len(recs))), "node slots %r", [r[1] for r in recs])
    nodes = []
    for nid, idx, tp in recs:
        feats = [nfd[nfi[k]:nfi[k + 1]] for k in range(ni[idx], ni[idx + 1])]
        edges = []
        for k in range(nbi[idx], nbi[idx + 1]):
            dst, off, et, w = es[k]
            ef = [efd[efi[j]:efi[j + 1]] for j in range(off, es[k + 1][1])]
            edges.append((dst, et, w, ef, times[k] if times else None))
        nodes.append((nid, tp, feats, edges))
    return nodes, mark


def aliases(files, kind, p):
    """{type: rows}; row = (left, right, prob)."""
    out = {}
    for n, b in files.items():
        if n.startswith(kind + "_") and n.endswith("_%d.alias" % p):
            tp = int(n[len(kind) + 1:-len("_%d.alias" % p)])
            if kind == "node":
                out[tp] = _alias(b, "=qqf", 1)
            else:
                out[tp] = [((a, c), (d, e), pr) for a, c, d, e, pr in _alias(b, "=qqqqf", 2)]
    return out


def load(files, listed=False):
    """(metadata, {partition: (nodes, watermark)}) of all the partitions, or of those listed in the metadata."""
    _need("meta.json" in files, "no meta.json")
    try:
        m = json.loads(files["meta.json"])
    except ValueError as e:
        raise Bad("meta.json: %s" % e)
    parts = {}
    for n in files:
        if n.startswith("node_") and n.endswith("_0.map"):
            p = int(n[5:-6])
            if listed and str(p) not in m["partitions"]:
                continue
            parts[p] = read_partition(files, p)
    return m, parts


def strip(feats):
    """Feature list as bytes without trailing missing entries."""
    f = list(feats)
    while f and not f[-1]:
        f.pop()
    return tuple(f)


def f32(x):
    return float(np.float32(x))


def expected(graph):
    nodes = {}
    edges = []
    for nid, tp, w, feats, es in graph:
        if tp is not None:
            nodes.setdefault(nid, []).append((tp, strip(feature_bytes(f) for f in feats)))
        for dst, et, ew, ef in es:
            edges.append((nid, dst, et, f32(ew), strip(feature_bytes(f) for f in ef)))
    return nodes, sorted(edges, key=repr)


def stored(parts):
    nodes = {}
    edges = []
    for p, (ns, _) in sorted(parts.items()):
        for nid, tp, feats, es in ns:
            if tp != -1 or feats:
                nodes.setdefault(nid, []).append((tp, strip(feats)))
            for dst, et, ew, ef, _t in es:
                edges.append((nid, dst, et, ew, strip(ef)))
    return nodes, sorted(edges, key=repr)


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def judge_meta(m, graph, parts, owner=None, watermark=-1, listed=False):
    """Compare metadata with the totals of the graph and with the content of each partition."""
    bad = []

    def eq(name, got, want):
        if got != want:
            bad.append("%s is %r, should be %r" % (name, got, want))
    whole, graph = graph, [n for n in graph if n[1] is not None]
    nt = max([n[1] for n in graph] + [-1]) + 1
    et = max([e[1] for n in whole for e in n[4]] + [-1]) + 1
    eq("node_count", m.get("node_count"), len(graph))
    eq("edge_count", m.get("edge_count"), sum(len(n[4]) for n in whole))
    eq("node_type_count", m.get("node_type_count"), nt)
    eq("edge_type_count", m.get("edge_type_count"), et)
    eq("node_feature_count", m.get("node_feature_count"), max([len(n[3]) for n in graph] + [0]))
    eq("edge_feature_count", m.get("edge_feature_count"), max([len(e[3]) for n in whole for e in n[4]] + [0]))
    eq("node_count_per_type", m.get("node_count_per_type"), [sum(n[1] == t for n in graph) for t in range(nt)])
    eq("edge_count_per_type", m.get("edge_count_per_type"),
       [sum(e[1] == t for n in whole for e in n[4]) for t in range(et)])
    eq("watermark", m.get("watermark"), watermark)
    ids = sorted(int(k) for k in m.get("partitions", {}))
    eq("partition numbers", ids, sorted(parts))
    if not listed:
        eq("partition numbers", ids, list(range(len(ids))))
    # weights: node weights are not stored per node, so they are looked up in the input
    wt = {}
    for n in graph:
        wt.setdefault((n[0], n[1]), []).append(n[2])
    for k, v in sorted(m.get("partitions", {}).items()):
        nodes = parts.get(int(k), ([], None))[0]
        nw = [0.0] * nt
        ew = [0.0] * et
        for nid, tp, _f, es in nodes:
            if tp >= nt or any(e[1] >= et for e in es):
                bad.append("stored type out of range in partition %s" % k)
                continue
            if tp >= 0 and len(set(wt.get((nid, tp), []))) == 1:
                nw[tp] += wt[(nid, tp)][0]
            for e in es:
                ew[e[1]] += e[2]
        for name, got, want in (("node_weight", v.get("node_weight"), nw), ("edge_weight", v.get("edge_weight"), ew)):
            if got is None or len(got) != len(want) or not all(near(a, b) for a, b in zip(got, want)):
                bad.append("%s of partition %s is %r, should be %r" % (name, k, got, want))
    return bad


def diff_graph(graph, parts):
    en, ee = expected(graph)
    gn, ge = stored(parts)
    bad = []
    if {k: sorted(v, key=repr) for k, v in en.items()} != {k: sorted(v, key=repr) for k, v in gn.items()}:
        bad.append("nodes stored %r, input %r" % (gn, en))
    if ee != ge:
        bad.append("edges stored %r, input %r" % (ge, ee))
    return bad


def judge_conversion(e, graph, watermark=-1, listed=False):
    """List of complaints about a finished conversion of this graph."""
    if e.outcome is not None:
        return ["conversion did not end: %s %s" % (e.outcome, e.blocked_info)]
    if e.error is not None:
        return ["conversion failed: %r" % (e.error,)]
    if e.thread_errors:
        return ["worker failed: %r" % (e.thread_errors,)]
    try:
        m, parts = load(output(), listed)
    except Bad as x:
        return ["output: %s" % x]
    return diff_graph(graph, parts) + judge_meta(m, graph, parts, watermark=watermark, listed=listed) + left_over()


def left_over():
    """Temporary files that a finished conversion did not remove."""
    if not os.listdir(tempfile.tempdir):
        return []
    gc.collect()
    names = os.listdir(tempfile.tempdir)
    for n in names:
        p = os.path.join(tempfile.tempdir, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    return ["temporary files are left behind: %d" % len(names)] if names else []


# -- command line of the checks --------------------------------------------------------------
def detuple(x):
    return tuple(detuple(y) for y in x) if isinstance(x, list) else x


def main(check, fn, cases, **kw):
    """Common main of the conversion checks: run all cases, or replay one."""
    import sys
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        t = H.Tally()
        prepare()
        fn(detuple(json.load(open(sys.argv[2]))["replay"]), t)
        for k, text, _ in t.violations:
            print("[%s] %s" % (k, text))
        H.cleanup()
        os._exit(1 if t.violations else 0)
    import warnings
    warnings.simplefilter("ignore")
    H.scratch()
    H.run_cases(check, fn, cases, case_timeout=120, init=prepare, **kw)
    check.finish()
