"""G04: the graph built from the raw files of a data set is the one they describe."""
import contextlib
import ctypes
import itertools
import json
import os
import re
import shutil
import sys
import urllib.request
import zipfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import numpy as np  # noqa: E402

check = H.Check("G04", rule="one evaluation = one data set built from one set of raw files; distinct = different (data set, options, graph)",
                assumptions=["the native library is a stand-in that records which partitions it is given",
                             "a download copies a prepared file"])


# -- stand-in for the native library: keeps what it is asked to load ------------------------------------
TAKEN = []


class Fn:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        if self.name == "CreateLocalGraph":
            n = int(getattr(a[2], "value", a[2]))
            TAKEN.append((a[1].value.decode(), [(a[4][i].decode(), int(a[3][i])) for i in range(n)]))
        return 0


class Lib:
    def __init__(self, *a, **k):
        self._fns = {}

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self._fns.setdefault(name, Fn(name))


_CDLL = ctypes.CDLL
ctypes.CDLL = lambda name, *a, **k: Lib() if name and "wrapper" in str(name) else _CDLL(name, *a, **k)


# -- raw files ---------------------------------------------------------------------------------------
DIM = {"cora": 1433, "citeseer": 3703}
FOLDER = {"cora": "cora", "citeseer": "citeseer-doc-classification"}
PAPERS = ("35", "p/7", "1000001", "x", "2")


def vector(i, dim):
    v = [0] * dim
    v[i % dim] = 1
    v[-1 - i] = 1
    return v


def zipped(path, files):
    with zipfile.ZipFile(path, "w") as z:
        for n, b in files.items():
            z.writestr(n, b)


def cases():
    out = []
    # (kind, nodes, labels, edges, ratio, random, partitions, how)
    for kind in ("cora", "citeseer"):
        for n in (1, 2, 3, 4):
            pairs = [(a, b) for a in range(n) for b in range(n)]
            if kind == "citeseer":
                pairs += [(0, 9), (9, 0)]
            for k in range(3 if n < 4 else 2):
                for edges in itertools.product(pairs, repeat=k):
                    out.append((kind, n, tuple(i % 2 for i in range(n)), edges, (1.0, 0.5)[len(out) % 2], False, 1, "path"))
        ring = ((0, 1), (1, 2), (2, 3), (3, 0), (1, 1))
        for ratio in (0.0, 0.2, 0.25, 0.5, 0.74, 0.75, 1.0):
            for rnd in (False, True):
                for parts in (1, 2, 3, 4) if kind == "cora" else (1,):
                    for how in ("path", "http", "again") + (("cli",) if ratio and parts < 4 else ()):
                        out.append((kind, 4, (0, 1, 0, 2), ring, ratio, rnd, parts, how))
                        out.append((kind, 5, (0, 0, 1, 0, 2), ring[:3], ratio, rnd, parts, how))
    for kind in ("ppi", "reddit"):
        for n in (1, 2, 3):
            splits = [s for s in itertools.product((0, 1, 2), repeat=n) if 0 in s]
            pairs = [(a, b) for a in range(n) for b in range(n)]
            for split in splits:
                for k in range(3):
                    for edges in itertools.product(pairs, repeat=k):
                        out.append((kind, n, split, edges, 1.0, len(out) % 2 == 1, 1 + len(out) % 3, "http"))
            if n == 3:
                continue
            for split in splits:
                for edges in itertools.product(pairs, repeat=1):
                    for how in ("http", "again", "cli"):
                        for parts in (1, 2, 3) if kind == "reddit" or how != "cli" else (1,):
                            out.append((kind, n, split, edges, 0.0 if kind == "reddit" else 1.0, True, parts, how))
                            out.append((kind, n, split, edges, 1.0, False, parts, how))
    return out


def planetoid(case, d):
    """Raw files of a citation data set and the graph: ({name: bytes}, nodes with features and labels)"""
    kind, n, labels, edges, ratio, rnd, parts, how = case
    dim = DIM[kind]
    rows = ["%s\t%s\t%s\n" % (PAPERS[i], "\t".join(map(str, vector(i, dim))), ("Theory", "AI", "ML")[labels[i]]) for i in range(n)]
    names = PAPERS + ("", "", "", "", "unknown")
    cites = ["%s\t%s\n" % (names[a], names[b]) for a, b in edges]
    return {FOLDER[kind] + "/%s.content" % kind: "".join(rows).encode(), FOLDER[kind] + "/%s.cites" % kind: "".join(cites).encode()}


def sage(case, d):
    kind, n, split, edges, ratio, swap, parts, how = case
    ids = list(range(n)) if kind == "ppi" else ["t3_%d" % (i * 7) for i in range(n)]
    number = [(n - 1 - i if swap and kind == "ppi" else i) for i in range(n)]  # row of the features
    feats = np.array([[i * 1.5 + 1, (-1) ** i, 7.0] for i in range(n)], dtype=np.float64)
    p = kind + "/" + kind
    b = os.path.join(d, "f.npy")
    np.save(b, feats)
    with open(b, "rb") as f:
        raw = f.read()
    os.remove(b)
    nodes = [{"id": ids[i], "test": split[i] == 2, "val": split[i] == 1} for i in range(n)]
    return {p + "-id_map.json": json.dumps({str(ids[i]): number[i] for i in range(n)}).encode(),
            p + "-G.json": json.dumps({"directed": False, "nodes": nodes, "links": [{"source": a, "target": c} for a, c in edges]}).encode(),
            p + "-class_map.json": json.dumps({str(ids[i]): [1, 0, i] if kind == "ppi" else i * 9 for i in range(n)}).encode(),
            p + "-feats.npy": raw}


def expected(case, train):
    """({node: (type, features)}, sorted edges (src, dst, type)); train: nodes chosen at random, or None"""
    kind, n, labels, edges, ratio, flag, parts, how = case
    nodes, es = {}, []
    if kind in DIM:
        first = train if flag else set(range(1, 1 + int(n * ratio)))
        number = {}
        for i in range(n):
            number.setdefault(labels[i], len(number))
            nodes[i + 1] = (0 if i + 1 in first else 1, (tuple(vector(i, DIM[kind])), (number[labels[i]],)))
        for a, b in {(x, y) for a, b in edges for x, y in ((a + 1, b + 1), (b + 1, a + 1))}:
            if a <= n and b <= n:
                es.append((a, b, 0 if a in first and b in first else 1))
        return nodes, sorted(es)
    number = [(n - 1 - i if flag and kind == "ppi" else i) for i in range(n)]
    feats = np.array([[i * 1.5 + 1, (-1) ** i, 7.0] for i in range(n)])
    mine = feats[[number[i] for i in range(n) if labels[i] == 0]]
    std = mine.std(0)
    scaled = (feats - mine.mean(0)) / np.where(std == 0, 1, std)
    for i in range(n):
        label = (1, 0, i) if kind == "ppi" else tuple(int(j == i * 9) for j in range(50))
        nodes[number[i]] = (labels[i], (label, tuple(scaled[number[i]])))
    for a, b in edges if ratio else ():
        x, y = number[a], number[b]
        tp = 0 if labels[a] == 0 and labels[b] == 0 else 1
        es += [(x, y, tp)] + ([(y, x, tp)] if x != y else [])
    return nodes, sorted(es)


def make(case, out, raw):
    kind, n, labels, edges, ratio, flag, parts, how = case
    from deepgnn.graph_engine.data import cora, citeseer, ppi, reddit
    url = raw if how in ("path", "again") else "https://host/%s.zip" % kind
    if how == "cli":
        return command(case, out, raw)
    if kind == "cora":
        return cora.CoraFull(out, ratio, flag, url, num_partitions=parts)
    if kind == "citeseer":
        return citeseer.CiteseerFull(out, ratio, flag, url)
    if kind == "ppi":
        return ppi.PPI(out, num_partitions=parts)
    return reddit.Reddit(out, ratio, num_partitions=parts)


def command(case, out, raw):
    """The module run as a program; the data sets shipped with the package are replaced by the prepared one"""
    import runpy
    from deepgnn.graph_engine.data import data_util
    kind, n, labels, edges, ratio, flag, parts, how = case
    argv, real = sys.argv, data_util.ZipFile
    sys.argv = [kind, "--data_dir", out]
    if kind in DIM:
        sys.argv += ["--train_node_ratio", str(ratio)] + ["--random_selection"] * flag
    if kind == "reddit":
        sys.argv += ["--edge_downsample_pct", str(ratio)]
    if kind in ("cora", "reddit"):
        sys.argv += ["--num_partitions", str(parts)]
    data_util.ZipFile = lambda name, *a, **k: real(raw, *a, **k)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            return runpy.run_module("deepgnn.graph_engine.data." + kind, run_name="__main__")["g"]
    finally:
        sys.argv, data_util.ZipFile = argv, real


def listed(out, name):
    with open(os.path.join(out, name)) as f:
        return sorted(int(x) for x in f.read().split())


def run(case, t):
    kind, n, labels, edges, ratio, flag, parts, how = case
    d = os.path.join(H.scratch(), "w%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "cwd"))
    raw, out = os.path.join(d, "raw.zip"), os.path.join(d, "out")
    zipped(raw, (planetoid if kind in DIM else sage)(case, d))
    real, cwd = urllib.request.urlretrieve, os.getcwd()
    urllib.request.urlretrieve = lambda url, name=None, *a, **k: shutil.copyfile(raw, name)
    os.chdir(os.path.join(d, "cwd"))
    TAKEN.clear()
    what = "%s: %d nodes %r, edges %r, %r" % (kind, n, labels, edges, case[4:])
    try:
        if how == "again":
            # the folder has the data set built with other options
            e = L.run(lambda: make(case[:4] + (1.0, not flag, 3, how), out, raw))
            TAKEN.clear()
        e = L.run(lambda: make(case, out, raw))
        t.evals += 1
        t.trans += e.steps
        if e.outcome or e.error is not None or e.thread_errors:
            t.violation(kind + ":failed", "%s: %r %r %r" % (what, e.outcome, e.error, e.thread_errors), case)
            return
        judge(case, e.result, out, t, what)
    finally:
        urllib.request.urlretrieve = real
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def judge(case, g, out, t, what):
    kind, n, labels, edges, ratio, flag, parts, how = case
    files = {}
    for x in os.listdir(out):
        if os.path.isfile(os.path.join(out, x)):
            with open(os.path.join(out, x), "rb") as f:
                files[x] = f.read()
    if how == "again":
        files = {k: v for k, v in files.items() if not re.search(r"_(\d+)_\d+\.\w+$", k) or int(re.search(r"_(\d+)_\d+\.\w+$", k)[1]) < parts}
    try:
        m, ps = L.load(files)
    except L.Bad as x:
        t.violation(kind + ":files", "%s: %s" % (what, x), case)
        return
    if len(TAKEN) != 1 or sorted(TAKEN[0][1]) != [(out, i) for i in range(parts)] or TAKEN[0][0] != out or sorted(ps) != list(range(parts)):
        t.violation(kind + ":partitions", "%s: %r loaded, written are %r" % (what, TAKEN, sorted(ps)), case)
        return
    train, test = listed(out, "train.nodes"), listed(out, "test.nodes")
    nodes, es = expected(case, set(train))
    if kind in DIM and len(train) != int(n * ratio):
        t.violation(kind + ":split", "%s: training nodes %r" % (what, train), case)
    got, ge = L.stored(ps)
    one = {k: (v[0][0], tuple(tuple(float(y) for y in np.frombuffer(f, np.float32)) for f in v[0][1])) for k, v in got.items()}

    def near(a, b):
        return len(a) == len(b) and all(len(x) == len(y) and np.allclose(x, y, rtol=1e-5, atol=1e-6) for x, y in zip(a, b))
    if set(one) != set(nodes) or any(len(v) != 1 for v in got.values()) or any(
            one[k][0] != nodes[k][0] or not near(one[k][1], nodes[k][1]) for k in nodes):
        def short(x):
            return {k: (v[0], [[(i, round(y, 4)) for i, y in enumerate(f) if y][:6] for f in v[1]]) for k, v in x.items()}
        t.violation(kind + ":nodes", "%s: nodes %r, should be %r" % (what, short(one), short(nodes)), case)
    if sorted(x[:3] for x in ge) != es or any(x[3] != 1.0 or x[4] for x in ge):
        t.violation(kind + ":edges", "%s: edges %r, should be %r" % (what, ge, es), case)
    lists = {0: train, 2: test, 1: listed(out, "val.nodes")} if kind not in DIM else {0: train, 1: test}
    for tp, ids in lists.items():
        if ids != sorted(k for k, v in nodes.items() if v[0] == tp):
            t.violation(kind + ":lists", "%s: nodes of type %d are listed as %r" % (what, tp, ids), case)
    if (m["node_count"], m["edge_count"]) != (len(nodes), len(es)):
        t.violation(kind + ":meta", "%s: metadata %r" % (what, m), case)
    t.state(kind, ratio, flag, parts, sorted((k, v[0]) for k, v in one.items()), ge)


L.main(check, run, cases())
