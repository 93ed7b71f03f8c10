"""S03: downloading a remote graph fetches exactly the files that the requested shards need."""
import ctypes
import gc
import itertools
import os
import re
import sys
import warnings
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import vpfs  # noqa: E402

import fsspec  # noqa: E402
import numpy  # noqa: E402,F401

check = H.Check("S03", rule="one evaluation = one graph opened from a remote file system (plain, or with one failing step); "
                "distinct = different (set of local files, partitions handed to the engine, outcome)",
                assumptions=["the remote file system is an fsspec file system in memory",
                             "the native library is a stand-in that takes stock of the folders it is given",
                             "an interrupted transfer shows as an error of the file system, not as silently shortened data"])


class VpFSB(vpfs.VpFS):
    """A second remote file system."""

    protocol = "vpfsb"
    files = {}

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        if path.startswith("vpfsb://"):
            path = path[len("vpfsb://"):]
        return "/" + path.strip("/")


fsspec.register_implementation("vpfsb", VpFSB, clobber=True)


# -- stand-in for the native library ------------------------------------------------------------------
TAKEN = []


def stock(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), folder)] = h.read()
    return out


class Fn:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        if self.name in ("CreateLocalGraph", "StartServer"):
            meta, n = a[1].value.decode(), int(getattr(a[2], "value", a[2]))
            places = [(a[4][i].decode(), int(a[3][i])) for i in range(n)]
            TAKEN.append((meta, stock(meta), [(p, i, stock(p) if os.path.isdir(p) else None) for p, i in places]))
        return 0


class Lib:
    def __init__(self, *a, **k):
        self._fns = {}

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self._fns.setdefault(name, Fn(name))


_CDLL = ctypes.CDLL


def cdll(name, *a, **k):
    return Lib() if name and "wrapper" in str(name) else _CDLL(name, *a, **k)


# -- graphs ----------------------------------------------------------------------------------------
F = (("d", "float32", (1.0, 2.0)),)


def graph(nf, ef, edges, types, n=6):
    out = []
    for i in range(n):
        es = ()
        if edges:
            es = ((i + 1, i % types, 1.0, F if ef else ()), (i + 2, types - 1, 2.0, F if ef else ()))
            es = tuple(sorted(es, key=lambda e: e[1]))
        out.append((i, i % types, 1.0, F if nf else (), es))
    return tuple(out)


GRAPHS = {}


def build():
    """name -> (files, number of partitions, watermark)"""
    L.prepare()
    for nf, ef, edges, types, parts in itertools.product((0, 1), (0, 1), (0, 1), (1, 2), (1, 2, 3)):
        if ef and not edges:
            continue
        g = "".join(L.to_json(x) + "\n" for x in graph(nf, ef, edges, types))
        for kw in ({}, {"skip_node_sampler": True}, {"skip_edge_sampler": True},
                   {"skip_node_sampler": True, "skip_edge_sampler": True}, {"watermark": 5}):
            e = L.convert_text({"g.json": g}, None, parts, **kw)
            if e.outcome or e.error is not None:
                raise RuntimeError("conversion failed: %r %r" % (e.outcome, e.error))
            GRAPHS["nf%d ef%d e%d t%d p%d %s" % (nf, ef, edges, types, parts, ",".join(sorted(kw)))] = (
                L.output(), parts, kw.get("watermark", -1))
    e = L.convert_text({"g.json": "".join(L.to_json(x) + "\n" for x in graph(1, 1, 1, 12, 30))}, None, 12, watermark=3)
    GRAPHS["wide"] = (L.output(), 12, 3)
    vpfs.reset()


def owner(name):
    m = re.fullmatch(r"(?:node|edge|neighbors|node_features|edge_features)_(\d+)_\d+\.(?:map|index|data|timestamp)", name)
    m = m or re.fullmatch(r"(?:node|edge)_\d+_(\d+)\.alias", name)
    return int(m.group(1)) if m else None


def put(files):
    vpfs.reset({"/out/" + k: v for k, v in files.items()})
    VpFSB.files = {"/b/" + k: v for k, v in files.items()}


def open_graph(how, parts):
    import deepgnn.graph_engine.snark.client as client
    import deepgnn.graph_engine.snark.server as server
    import deepgnn.graph_engine.snark.local as local
    if how == "memory":
        return client.MemoryGraph("vpfs://out", parts)
    if how == "server":
        return server.Server("vpfs://out", parts, "localhost:1")
    return local.Client("vpfs://out", parts).graph


def local_copy(files, ids):
    d = os.path.join(H.scratch(), "local%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    for n, v in files.items():
        if owner(n) is None or owner(n) in ids:
            with open(os.path.join(d, n), "wb") as f:
                f.write(v)
    return d


def judge(name, how, parts, what, t, case):
    files, total, mark = GRAPHS[name]
    if len(TAKEN) != 1:
        t.violation("engine", "%s: the engine was started %d times" % (what, len(TAKEN)), case)
        return
    meta, mfiles, places = TAKEN[0]
    want = [p if isinstance(p, int) else p[1] for p in parts]
    if [i for _, i, _ in places] != want:
        t.violation("ids", "%s: the engine gets partitions %r" % (what, [i for _, i, _ in places]), case)
        return
    if mfiles.get("meta.json") != files["meta.json"]:
        t.violation("meta", "%s: no copy of meta.json in the folder of the engine" % what, case)
    import json
    m = json.loads(files["meta.json"])
    skip = [k for k in ("node", "edge") if m[k + "_feature_count"] == 0]
    t.state(sorted(mfiles), want, [sorted(x or {}) for _, _, x in places])
    remote = {want[k] for k, p in enumerate(parts) if isinstance(p, int) or not p[0].startswith("/")}
    for path, i, have in places:
        for n, v in files.items():
            if owner(n) != i or any(n.startswith(k + "_features_") for k in skip):
                continue
            if have is None or n not in have:
                t.violation("missing", "%s: partition %d is served from %s without %s (of %d bytes)" % (
                    what, i, "a folder" if have is not None else "no local folder", n, len(v)), case)
                return
            if have[n] != v:
                t.violation("content", "%s: %s differs from the remote file" % (what, n), case)
                return
    other = [n for n in mfiles if owner(n) is not None and owner(n) not in remote]
    if other:
        t.violation("other", "%s: downloads files of other partitions: %r" % (what, sorted(other)), case)


def left():
    return [x for x in os.listdir(tempfile.gettempdir()) if os.path.isdir(os.path.join(tempfile.gettempdir(), x))]


def run(case, t):
    kind, name, how, parts = case[:4]
    parts = [p if isinstance(p, int) else tuple(p) for p in parts]
    files, total, mark = GRAPHS[name]
    tempfile.tempdir = os.path.join(H.scratch(), "w%d" % os.getpid())
    os.makedirs(tempfile.tempdir, exist_ok=True)
    put(files)
    del TAKEN[:]
    if kind == "mixed":
        ids = [p[1] for p in parts if p[0] == "local"]
        d = local_copy(files, ids)
        parts = [(d if p[0] == "local" else p[0], p[1]) for p in parts]
    what = "graph [%s] opened as %s with partitions %r" % (name, how, [p if isinstance(p, int) else ("local" if p[0][0] == "/" else p[0], p[1]) for p in parts])
    if kind == "fault":
        fault(name, how, parts, what, t, case)
        return
    t.evals += 1
    n = [0]

    def hook(*a):
        n[0] += 1
    vpfs.VpFS.hook = hook
    g = None
    try:
        g = open_graph(how, list(parts))
    except Exception as e:
        t.violation("fails", "%s: %s: %s" % (what, type(e).__name__, str(e)[:300]), case)
        return
    t.trans += n[0]
    judge(name, how, parts, what, t, case)
    g.reset()
    if left():
        t.violation("left", "%s: after reset the folders %r remain" % (what, left()), case)
    t.sample({"graph": name, "partitions": [str(p) for p in parts], "remote_steps": n[0]})


def fault(name, how, parts, what, t, case):
    """Fail every step of the remote file system in turn."""
    files, total, mark = GRAPHS[name]
    k = 0
    while True:
        put(files)
        del TAKEN[:]
        n = [0]
        op = [None]

        def hook(o, path, arg):
            if n[0] == k:
                op[0] = (o, path)
                n[0] += 1
                raise vpfs.Fault("step %d" % k)
            n[0] += 1
        vpfs.VpFS.hook = hook
        g = err = None
        try:
            g = open_graph(how, list(parts))
        except BaseException as e:
            err = type(e).__name__
        vpfs.VpFS.hook = None
        if op[0] is None:
            break
        t.evals += 1
        t.trans += n[0]
        t.state(name, how, repr(parts), k, err)
        if err is None:
            sub = H.Tally()
            judge(name, how, parts, what, sub, case)
            if sub.violations:
                t.violation("unreported:" + op[0][0], "%s: %s of %s fails, yet the graph is opened: %s" % (
                    what, op[0][0], op[0][1], sub.violations[0][1]), case)
            g.reset()
        g = None
        gc.collect()
        if left():
            t.violation("left", "%s: %s of %s fails and the folders %r remain" % (what, op[0][0], op[0][1], left()), case)
        k += 1
        if k > 500:
            break


def cases():
    out = []
    for name, (files, total, mark) in GRAPHS.items():
        if name == "wide":
            sets = [(i,) for i in range(12)] + [(1, 11), (10, 0), (11, 1, 10), tuple(range(12))]
        else:
            sets = [s for n in range(1, total + 1) for s in itertools.permutations(range(total), n)]
        for s in sets:
            out.append(("plain", name, "memory", s))
            out.append(("plain", name, "server", s))
            out.append(("plain", name, "memory", tuple(("vpfs://out", i) for i in s)))
            out.append(("plain", name, "local", s))
    for name in ("nf1 ef1 e1 t2 p3 ", "nf1 ef1 e1 t2 p3 watermark", "nf0 ef0 e1 t1 p3 skip_edge_sampler,skip_node_sampler"):
        for n in (1, 2, 3):
            for s in itertools.permutations(range(3), n):
                for w in itertools.product(("vpfs://out", "vpfsb://b", "local"), repeat=n):
                    out.append(("mixed", name, "memory", tuple(zip(w, s))))
                    out.append(("mixed", name, "server", tuple(zip(w, s))))
    for name in ("nf1 ef1 e1 t2 p2 ", "nf1 ef1 e1 t2 p2 watermark", "nf0 ef0 e0 t1 p1 ", "nf1 ef0 e1 t1 p3 skip_node_sampler"):
        total = GRAPHS[name][1]
        for s in [s for n in range(1, total + 1) for s in itertools.combinations(range(total), n)]:
            for how in ("memory", "server"):
                out.append(("fault", name, how, s))
    return out


ctypes.CDLL = cdll
H.quiet_logging()
warnings.simplefilter("ignore")
build()
L.main(check, run, cases())
