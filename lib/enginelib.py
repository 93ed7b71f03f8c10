"""Small graphs laid out over partitions and servers, a writer of the binary format (shares no code with
the repository), the reference answers to every query, and exploration of draws and reply orders."""
import ctypes
import json
import os
import shutil
import struct
import sys
import tempfile

import harness as H
import nativelib as N

N.activate()

import numpy as np  # noqa: E402
import convlib as L  # noqa: E402

NEVER = -1
# A layout is a tuple of partitions; a partition is a tuple of node records
#   (id, type | -1, weight, features, edges), edge = (dst, type, weight, features[, (created, removed)])
# feature = as in convlib, or ("v", ((created, feature), ...)) in a temporal graph.


# -- writer ----------------------------------------------------------------------------------------
def blob(f, temporal):
    if f is None:
        return b""
    if f[0] == "v":
        vs = f[1]
        data = [L.feature_bytes(x) for _, x in vs]
        off, pos = [], 4 + 8 * (2 * len(vs) + 1)
        for d in data:
            off.append(pos)
            pos += len(d)
        return struct.pack("=I%dq" % (2 * len(vs) + 1), len(vs), *([c for c, _ in vs] + off + [pos])) + b"".join(data)
    assert not temporal
    return L.feature_bytes(f)


def alias(weights):
    """[(left, right, probability of left)]"""
    n, s = len(weights), sum(weights)
    if not n or s <= 0:
        return [(i, i, 1.0) for i in range(n)]
    w = [x * n / s for x in weights]
    out = [None] * n
    small = [i for i in range(n) if w[i] < 1]
    large = [i for i in range(n) if w[i] >= 1]
    while small and large:
        i, j = small.pop(), large.pop()
        out[i] = (i, j, w[i])
        w[j] -= 1 - w[i]
        (small if w[j] < 1 else large).append(j)
    for i in small + large:
        out[i] = (i, i, 1.0)
    return out


def order(edges):
    """As a converter writes them; temporal ones in the order given, since edge lists are not sorted by time."""
    return sorted(edges, key=lambda e: e[1] if len(e) > 4 else (e[1], e[0]))


def by_time(edges):
    """The order in which JSON records are written."""
    return tuple(sorted(edges, key=lambda e: (e[1], e[4][0], float("inf") if e[4][1] == NEVER else e[4][1], e[0])))


def meta(layout, watermark=-1):
    nodes = [n for p in layout for n in p if n[1] >= 0]
    edges = [e for p in layout for n in p for e in n[4]]
    nt = max([n[1] for n in nodes] + [-1]) + 1
    et = max([e[1] for e in edges] + [-1]) + 1
    return {
        "binary_data_version": "v2", "node_count": len(nodes), "edge_count": len(edges), "node_type_count": nt,
        "edge_type_count": et, "node_feature_count": max([len(n[3]) for n in nodes] + [0]),
        "edge_feature_count": max([len(e[3]) for e in edges] + [0]),
        "partitions": {str(i): {"node_weight": [sum([n[2] for n in p if n[1] == t], 0.0) for t in range(nt)],
                                "edge_weight": [sum([e[2] for n in p for e in n[4] if e[1] == t], 0.0) for t in range(et)]}
                       for i, p in enumerate(layout)},
        "node_count_per_type": [sum(n[1] == t for n in nodes) for t in range(nt)],
        "edge_count_per_type": [sum(e[1] == t for e in edges) for t in range(et)], "watermark": watermark}


def files(layout, watermark=-1, numbers=None, split=False, samplers=True):
    """{name: bytes} of a graph; numbers renames partitions, split puts every record in a file set of its own."""
    m = meta(layout, watermark)
    temporal = watermark >= 0
    out = {}
    for i, part in enumerate(layout):
        p = numbers[i] if numbers else i
        for it, recs in enumerate([[r] for r in part] or [[]] if split else [part]):
            s = "%d_%d" % (p, it)
            nm, ni, nfi, nfd, nbi, ei, efi, efd, ts = b"", [], [], b"", [], b"", [], b"", b""
            ne = 0
            for k, (nid, tp, w, feats, edges) in enumerate(recs):
                nm += struct.pack("=qQi", nid, k, tp)
                ni.append(len(nfi))
                for f in feats:
                    nfi.append(len(nfd))
                    nfd += blob(f, temporal)
                nbi.append(ne)
                for e in order(edges):
                    ei += struct.pack("=qQif", e[0], len(efi), e[1], e[2])
                    for f in e[3]:
                        efi.append(len(efd))
                        efd += blob(f, temporal)
                    if temporal:
                        ts += struct.pack("=qq", *e[4])
                    ne += 1
            ni.append(len(nfi))
            nfi.append(len(nfd))
            nbi.append(ne)
            ei += struct.pack("=QQif", 0, len(efi), 0, -1)
            efi.append(len(efd))
            u = lambda xs: struct.pack("=%dQ" % len(xs), *xs)  # noqa: E731
            out.update({"node_%s.map" % s: nm, "node_%s.index" % s: u(ni), "node_features_%s.index" % s: u(nfi),
                        "node_features_%s.data" % s: nfd, "neighbors_%s.index" % s: u(nbi), "edge_%s.index" % s: ei,
                        "edge_features_%s.index" % s: u(efi), "edge_features_%s.data" % s: efd})
            if temporal:
                out["edge_%s.timestamp" % s] = struct.pack("=Q", watermark) + ts
        if samplers:
            # as a converter does: tables up to the highest type of the partition, 0 where no alias is needed
            for t in range(max([n[1] for n in part] + [-1]) + 1):
                ns = [(n[0], n[2]) for n in part if n[1] == t]
                out["node_%d_%d.alias" % (t, p)] = b"".join(
                    struct.pack("=qqf", ns[a][0], ns[b][0] if pr < 1 else 0, pr) for a, b, pr in alias([w for _, w in ns]))
            for t in range(max([e[1] for n in part for e in n[4]] + [-1]) + 1):
                es = [(n[0], e[0], e[2]) for n in part for e in order(n[4]) if e[1] == t]
                out["edge_%d_%d.alias" % (t, p)] = b"".join(
                    struct.pack("=qqqqf", *es[a][:2], *(es[b][:2] if pr < 1 else (0, 0)), pr) for a, b, pr in alias([e[2] for e in es]))
    if numbers:
        m["partitions"] = {str(numbers[int(k)]): v for k, v in m["partitions"].items()}
    out["meta.json"] = json.dumps(m).encode()
    return out


_n = [0]


def folder(fs):
    """Write files to a new folder."""
    d = os.path.join(H.scratch(), "g%d_%d" % (os.getpid(), _n[0]))
    _n[0] += 1
    os.mkdir(d)
    for n, b in fs.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(b)
    return d


def remove(d):
    shutil.rmtree(d, ignore_errors=True)


# -- reference -------------------------------------------------------------------------------------
class Ref:
    """What the graph contains, whatever its layout."""

    def __init__(self, layout):
        self.nodes, self.edges = {}, {}
        for p in layout:
            for nid, tp, w, feats, edges in p:
                if tp >= 0:
                    self.nodes[nid] = (tp, w, self.merged(self.nodes[nid][2], feats) if nid in self.nodes else feats)
                for e in edges:
                    self.edges.setdefault(nid, []).append(e)

    @staticmethod
    def merged(a, b):
        """Versions of features kept in several partitions."""
        out = []
        for i in range(max(len(a), len(b))):
            vs = [x[i][1] for x in (a, b) if i < len(x) and x[i] is not None]
            out.append(("v", tuple(sorted((v for y in vs for v in y), key=lambda v: v[0]))) if vs else None)
        return tuple(out)

    def type(self, nid, default):
        return self.nodes[nid][0] if nid in self.nodes else default

    @staticmethod
    def at(f, ts):
        """The version of a feature valid at the time, or None."""
        if f is None or f[0] != "v":
            return f
        best = [x for c, x in f[1] if c <= ts]
        return best[-1] if best else None

    def feature(self, feats, i, ts=None):
        return self.at(feats[i], ts) if 0 <= i < len(feats) else None

    def node_feature(self, nid, i, ts=None):
        return self.feature(self.nodes[nid][2], i, ts) if nid in self.nodes else None

    def edge_feature(self, src, dst, tp, i, ts=None):
        for e in self.edges.get(src, ()):
            if e[0] == dst and e[1] == tp:
                return self.feature(e[3], i, ts)
        return None

    def neighbors(self, nid, types, ts=None):
        """[(dst, weight, type, created)]"""
        out = []
        for e in self.edges.get(nid, ()):
            if e[1] in types and (ts is None or e[4][0] <= ts and (e[4][1] == NEVER or e[4][1] > ts)):
                out.append((e[0], L.f32(e[2]), e[1], e[4][0] if len(e) > 4 else -1))
        return out


def dense(f, size, dtype):
    b = L.feature_bytes(f)[:size * np.dtype(dtype).itemsize]
    b += bytes(size * np.dtype(dtype).itemsize - len(b))
    return b


# -- exploration -----------------------------------------------------------------------------------
RANDOM, ORDER, FAULT, LAZY = 1, 2, 4, 8


class Rec(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int32), ("n", ctypes.c_int32), ("choice", ctypes.c_int32), ("pad", ctypes.c_int32),
                ("prob", ctypes.c_double)]


_lib = []


def lib():
    if not _lib:
        x = ctypes.CDLL(os.environ["SNARK_LIB_PATH"])
        x.vp_delivered.restype = ctypes.c_uint64
        _lib.append((x, (Rec * 4096)()))
    return _lib[0]


class Run:
    """One execution: its choices, their probability, and what came out."""

    def __init__(self, script=(), flags=0, grid=4, faults=0, limit=4000):
        self.args = (list(script), flags, grid, faults, limit)  # grid: cells of every draw, or a list for the first ones
        self.cut = self.error = self.result = None

    def run(self, fn):
        x, buf = lib()
        script, flags, grid, faults, limit = self.args
        grids = () if isinstance(grid, int) else grid
        x.vp_begin((ctypes.c_int32 * max(1, len(script)))(*script), len(script), flags, grids[-1] if grids else grid, faults, limit)
        if grids:
            x.vp_grids((ctypes.c_int32 * len(grids))(*grids), len(grids))
        d0 = x.vp_delivered()
        try:
            self.result = fn()
        except Exception as e:
            self.error = e
        k = x.vp_end(buf, len(buf))
        if k & (1 << 29):
            raise RuntimeError("execution does not follow its script")
        self.cut = bool(k & (1 << 30))
        self.trace = [(buf[i].kind, buf[i].n, buf[i].choice, buf[i].prob) for i in range(k & 0xffff)]
        self.delivered = x.vp_delivered() - d0
        self.prob = 1.0
        for kind, _, _, p in self.trace:
            if kind == RANDOM:
                self.prob *= p
        self.steps = len(self.trace) + self.delivered
        return self

    @property
    def script(self):
        return [c for _, _, c, _ in self.trace]

    def following(self):
        for k in range(len(self.trace) - 1, -1, -1):
            if self.trace[k][2] + 1 < self.trace[k][1]:
                return [c for _, _, c, _ in self.trace[:k]] + [self.trace[k][2] + 1]
        return None


def explore(fn, flags, t=None, grid=4, faults=0, limit=4000, cap=None):
    """Every execution of fn; yields Run objects (also those with an impossible, zero probability outcome)."""
    script, n = [], 0
    while script is not None:
        r = Run(script, flags, grid, faults, limit).run(fn)
        n += 1
        if t is not None:
            t.evals += 1
            t.trans += r.steps
            if r.cut:
                t.count("cut")
        yield r
        if cap is not None and n >= cap:
            if t is not None:
                t.capped = True
            return
        script = r.following()


def fault_code(code):
    """Status of failed replies (14: server not available)."""
    lib()[0].vp_fault_code(code)


def flush():
    return lib()[0].vp_flush()


# -- clients ---------------------------------------------------------------------------------------
_mods = []


def mods():
    if not _mods:
        d = os.path.join(H.scratch(), "t%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        tempfile.tempdir = d
        import deepgnn.graph_engine.snark.client as client
        import deepgnn.graph_engine.snark.server as server
        import deepgnn.graph_engine.snark.local as local
        import deepgnn.graph_engine.snark.distributed as distributed
        _mods.append((client, server, local, distributed))
    return _mods[0]


class Local:
    def __init__(self, d, partitions, disk=False):
        client = mods()[0]
        st = client.PartitionStorageType.disk if disk else client.PartitionStorageType.memory
        self.g = client.MemoryGraph(d, partitions, st)

    def close(self):
        self.g.reset()


class Cluster:
    """Servers with the partitions given to each, and a client of all of them."""

    def __init__(self, d, groups, disk=False, threads=1, options=None, **kw):
        client, server = mods()[:2]
        st = client.PartitionStorageType.disk if disk else client.PartitionStorageType.memory
        self.servers = [server.Server(d, [p if isinstance(p, tuple) else (d, p) for p in ps], "s%d" % i, storage_type=st, **kw)
                        for i, ps in enumerate(groups)]
        self.g = client.DistributedGraph(["s%d" % i for i in range(len(groups))], num_threads=threads,
                                         grpc_options=options)

    def close(self):
        self.g.reset()
        for s in self.servers:
            s.reset()


def groupings(n, servers):
    """All ways to give n partitions to so many servers (servers may stay empty)."""
    import itertools
    for a in itertools.product(range(servers), repeat=n):
        yield tuple(tuple(p for p in range(n) if a[p] == s) for s in range(servers))


def init():
    H.quiet_logging()
    mods()
    lib()


def main(check, fn, cases, replay=None, **kw):
    """Common main: run all cases, or replay one."""
    import warnings
    warnings.simplefilter("ignore")
    H.scratch()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        t = H.Tally()
        init()
        fn(L.detuple(json.load(open(sys.argv[2]))["replay"]), t)
        for k, text, _ in t.violations:
            print("[%s] %s" % (k, text))
        H.cleanup()
        sys.stdout.flush()
        os._exit(1 if t.violations else 0)
    kw.setdefault("case_timeout", 120)

    def sure(case, t):
        """Executions are determined by their choices: what does not show again was a slip of the control."""
        one = H.Tally()
        fn(case, one)
        new = {k for k, _, _ in one.violations} - set(check.known)
        for _ in range(2):
            if not new:
                break
            two = H.Tally()
            fn(case, two)
            new -= {k for k, _, _ in two.violations}
        if new:
            one.count("not repeated")
            one.violations = [v for v in one.violations if v[0] not in new]
        t.merge(one)
    H.run_cases(check, sure, cases, init=init, crash_info=N.crash_info, **kw)
    check.finish()
