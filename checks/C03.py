"""C03: partition count and converter worker split do not change the graph."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import vpfs  # noqa: E402

check = H.Check("C03", rule="one evaluation = one full conversion (all workers, then the metadata merge) whose "
                "partitions and merged metadata are compared with the input graph; distinct = different outputs",
                assumptions=["there are at least as many input files as workers (required by the reader)"])


def graph(variant, nfiles):
    """One list of nodes per input file; the variants differ in which types and features the files hold."""
    files = []
    nid = 0
    if isinstance(variant, tuple):
        for f, kind in enumerate(variant):
            nodes = {0: (), 1: ((0, 1.5, 0, None),), 2: ((2, 2.0, 2, 1),), 3: ((0, 0.5, 1, 3), (1, 1.0, 0, 0))}[kind]
            files.append([(10 * f + k, tp, w, (("s", "n"),) * nf,
                           () if et is None else ((f, et, 0.25 + f, (("s", "e"),) * et),))
                          for k, (tp, w, nf, et) in enumerate(nodes)])
        return files
    for f in range(nfiles):
        nodes = []
        count = {"even": 2, "uneven": 1 + f % 3, "holes": f % 2, "growing": 2, "shrinking": 2, "edges": 1,
                 "features": 2, "one": int(f == nfiles - 1)}[variant]
        for k in range(count):
            tp = {"growing": f, "shrinking": nfiles - 1 - f, "edges": 0}.get(variant, (nid * 7) % 3)
            et = {"growing": f + 1, "shrinking": nfiles - f, "edges": f}.get(variant, nid % 2)
            nf = (("d", "int32", (nid,)),) + ((None,) * f + (("s", "x%d" % nid),) if variant == "features" else ())
            es = tuple(((nid + j) % 9, et if j == 0 else 0, 0.5 + j + nid, (("s", "e%d" % nid),) if j else ())
                       for j in range(1 + nid % 2))
            nodes.append((nid, tp, 1.0 + nid, nf, es))
            nid += 1
        files.append(nodes)
    return files


VARIANTS = ["even", "uneven", "holes", "growing", "shrinking", "edges", "features", "one"]


def cases():
    out = []
    for v in VARIANTS:
        for p in range(1, 7 if H.THOROUGH else 6):
            for w in range(1, 7 if H.THOROUGH else 6):
                for extra in (0, 1, 3):
                    orders = [tuple(range(w))]
                    if extra == 0 and w > 1:
                        orders.append(tuple(reversed(range(w))))
                        if w == 3:
                            orders += list(itertools.permutations(range(3)))[1:-1]
                    for o in orders:
                        out.append((v, p, w, w + extra, o, -1))
        for p, w in ((11, 11), (12, 12), (12, 11), (24, 12), (13, 12), (23, 11)):
            out.append((v, p, w, w, tuple(range(w)), 7))
    for p, w in itertools.product(range(1, 17), repeat=2):
        if max(p, w) > 5:
            out.append(("uneven", p, w, w, tuple(range(w)), -1))
            out.append(("one", p, w, w + 1, tuple(range(w)), -1))
    for n in (20, 40, 101, 130):
        for p, w in ((1, 1), (2, 3), (3, 2), (7, 4), (4, 7), (12, 12)):
            out.append(("uneven", p, w, n, tuple(range(w)), -1))
            out.append(("holes", p, w, n, tuple(range(w)), -1))
            out.append(("plain names", p, w, n, tuple(range(w)), -1))
    for k in (2, 3, 4) if H.THOROUGH else (2, 3):
        for v in itertools.product(range(4), repeat=k):
            for p in range(1, 5):
                for w in range(1, k + 1):
                    out.append((v, p, w, k, tuple(range(w)), -1))
    for p in (1, 2, 3):
        for w in (1, 2, 3):
            out.append(("even", p, w, w, tuple(range(w)), 9))
            out.append(("growing", p, w, w, tuple(range(w)), 0))
    return out


def reload(m):
    """The loader of the metadata file agrees with the file."""
    from deepgnn.graph_engine.snark.meta import Meta
    d = os.path.join(H.scratch(), "m%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump(m, f)
    x = Meta(d)
    bad = ["loaded %s is %r, file has %r" % (k, getattr(x, k), m[k])
           for k in ("node_count", "edge_count", "node_type_count", "edge_type_count", "node_count_per_type",
                     "edge_count_per_type", "watermark") if getattr(x, k) != m[k]]
    if x.partition_count != len(m["partitions"]):
        bad.append("loaded partition_count is %r for %d partitions" % (x.partition_count, len(m["partitions"])))
    return bad


def run(case, t):
    v, p, w, nfiles, order, mark = case
    convert, decoders, _, merger = L.prepare()
    files = graph("uneven" if v == "plain names" else v, nfiles)
    vpfs.reset({("/in/%d" if v == "plain names" else "/in/part_%03d.json") % i: "".join(L.to_json(n) + "\n" for n in ns).encode()
                for i, ns in enumerate(files)})
    kw = {} if mark == -1 else {"watermark": mark}

    def go():
        for i in order:
            convert.MultiWorkersConverter(
                graph_path="vpfs://in", output_dir="vpfs://out", decoder=decoders.JsonDecoder, partition_count=p,
                worker_index=i, worker_count=w, thread_count=1, **kw).convert()
        if w > 1:
            merger.merge_metadata_files("vpfs://out")
    e = L.run(go)
    t.evals += 1
    t.trans += e.steps
    g = [n for ns in files for n in ns]
    bad = L.judge_conversion(e, g, watermark=mark)
    if not bad:
        m, parts = L.load(L.output())
        if len(parts) > p:
            bad.append("partitions: %d asked for, %d written" % (p, len(parts)))
        if w == 1 and len(parts) != p:
            bad.append("partitions: %d asked for, %d written" % (p, len(parts)))
        t.state(m, L.stored(parts), sorted((k, [n[0] for n in x[0]]) for k, x in parts.items()))
        bad += reload(m)
        marks = {x[1] for x in parts.values()}
        if marks != ({None} if mark == -1 else {mark}):
            bad.append("watermark in files %r" % marks)
    for b in bad:
        t.violation(b.split(" ")[0], "%s; variant %r, %d partitions, %d workers run in order %r, %d files" % (
            b[:400], v, p, w, order, nfiles), case)
    t.sample({"variant": v, "partitions": p, "workers": w, "files": nfiles})


L.main(check, run, cases())
