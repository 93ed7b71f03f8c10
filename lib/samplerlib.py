"""Enumeration and reference model for the samplers."""
import itertools
import json
import math
import os
import pickle
import random
import sys

import harness as H

ROOT = None
MORE = [15, 16, 17, 20, 24, 25, 31, 32, 33, 63, 64, 65, 100, 128, 257]
FILES = (1, 2, 3, 4, 5, 12)


def prepare(d):
    """Create the source files all cases read."""
    global ROOT
    ROOT = d
    for n in list(range(0, 15)) + MORE:
        p = os.path.join(d, "lines_%d" % n)
        with open(p + ".tuple", "w") as f:
            for i in range(n):
                f.write("%d\t%d\n" % (100 + i, i % 3))
        with open(p + ".tuple2", "w") as f:
            for i in range(n):
                f.write("%d\t%s\t%s %s\n" % (100 + i, i % 2 + 0.5, i, -i))
        with open(p + ".csv", "w") as f:
            for i in range(n):
                f.write("%d,%d\n" % (100 + i, i % 3))
                if i % 4 == 1:
                    f.write("\n")
        with open(p + ".csv1", "w") as f:
            for i in range(n):
                f.write("%d\n" % (100 + i))
        for files in FILES:
            dd = p + ".dir%d" % files
            os.makedirs(dd, exist_ok=True)
            per = [[] for _ in range(files)]
            for i in range(n):
                per[i * files // max(1, n)].append(i)
            for k in range(files):
                with open(os.path.join(dd, "part_%02d.node" % k), "w") as f:
                    f.write("".join("%d\n" % (100 + i) for i in per[k]))
                with open(os.path.join(dd, "part_%02d.edge" % k), "w") as f:
                    f.write("".join("%d\t%d\n" % (100 + i, 200 + i) for i in per[k]))
                with open(os.path.join(dd, "part_%02d.feat" % k), "w") as f:
                    f.write("".join("%d\t%d\t%s\t%s\n" % (100 + i, 200 + i, i + 0.25, -i) for i in per[k]))
            tt = p + ".txt%d" % files
            os.makedirs(tt, exist_ok=True)
            for k in range(files):
                with open(os.path.join(tt, "part_%02d" % k), "w") as f:
                    f.write("".join("line%d\n" % i for i in per[k]))


def per_file(n, files):
    per = [[] for _ in range(files)]
    for i in range(n):
        per[i * files // max(1, n)].append(i)
    return per


PAD = -7


def build(kind, c, w, r, via_setter=False):
    from deepgnn.graph_engine import samplers as S
    n, b, W, dp, ep = c["n"], c["b"], c["W"], c["dp"], c["ep"]
    par = {} if via_setter else {"data_parallel_num": dp, "data_parallel_index": r}
    base = os.path.join(ROOT, "lines_%d" % n)
    if kind == "range":
        s = S.RangeNodeSampler(first=c.get("first", 0), last=c.get("first", 0) + n, batch_size=b, worker_index=w,
                               num_workers=W, backfill_id=PAD, **par)
    elif kind == "redge":
        s = S.RangeEdgeSampler(edge_type=2, first=c.get("first", 0), last=c.get("first", 0) + n, batch_size=b,
                               worker_index=w, num_workers=W, backfill_id=PAD, **par)
    elif kind == "node":
        s = S.FileNodeSampler(base + ".dir%d/*.node" % c["files"], b, epochs=ep, shuffle=c["sh"], drop_last=c["dl"],
                              backfill_id=PAD, worker_index=w, num_workers=W, **par)
    elif kind == "edge":
        s = S.FileEdgeSampler(2, base + ".dir%d/*.edge" % c["files"], b, epochs=ep, shuffle=c["sh"], drop_last=c["dl"],
                              backfill_id=PAD, worker_index=w, num_workers=W, **par)
    elif kind == "feat":
        s = S.FileEdgeSampler(2, base + ".dir%d/*.feat" % c["files"], b, epochs=ep, shuffle=c["sh"], feature_dim=2,
                              drop_last=c["dl"], backfill_id=PAD, worker_index=w, num_workers=W, **par)
    elif kind == "tuple":
        s = S.FileTupleSampler(base + ".tuple", b, epochs=ep, shuffle=c["sh"], drop_last=c["dl"], backfill=PAD,
                               worker_index=w, num_workers=W, **par)
    elif kind == "tuple2":
        s = S.FileTupleSamplerV2(base + ".tuple2", b, epochs=ep, shuffle=c["sh"], drop_last=c["dl"], backfill=PAD,
                                 worker_index=w, num_workers=W, **par)
    elif kind in ("csv", "csv1"):
        s = S.CSVNodeSampler(b, base + "." + kind, epoch=ep, **par)
    elif kind == "text":
        s = S.TextFileSampler("", base + ".txt%d" % c["files"], batch_size=b, buffer_size=c["buf"], epochs=ep,
                              shuffle=c["sh"], drop_last=c["dl"], worker_index=w, num_workers=W, **par)
    else:
        raise ValueError(kind)
    if via_setter:
        s.data_parallel_num = dp
        s.data_parallel_index = r
    return s


def elem(kind, i, first=0):
    """The element number i of the source as it has to come out."""
    if kind in ("range", "redge"):
        return first + i
    if kind == "node":
        return 100 + i
    if kind == "edge":
        return (100 + i, 200 + i, 2)
    if kind == "feat":
        return (100 + i, 200 + i, 2, i + 0.25, float(-i))
    if kind in ("tuple", "csv"):
        return (100 + i, i % 3)
    if kind == "csv1":
        return (100 + i,)
    if kind == "tuple2":
        return (100 + i, i % 2 + 0.5, float(i), float(-i))
    if kind == "text":
        return "line%d" % i


def pads(kind):
    if kind in ("range", "redge", "node"):
        return {PAD}
    if kind == "edge":
        return {(PAD, PAD, 2)}
    if kind == "feat":
        return {(PAD, PAD, 2, 0.0, 0.0)}
    if kind in ("tuple", "csv"):
        return {(PAD, PAD)}
    if kind == "tuple2":
        return {(PAD, float(PAD), float(PAD), float(PAD))}
    if kind == "text":
        return {""}
    return set()


def rows(kind, batch):
    """Batch -> list of comparable elements."""
    if kind in ("feat", "tuple2"):
        cols = [x.tolist() for x in batch]
        out = []
        for parts in zip(*cols):
            row = []
            for p in parts:
                row.extend(p if isinstance(p, list) else [p])
            out.append(tuple(row))
        if len(set(len(x) for x in cols)) != 1:
            raise AssertionError("columns of different length")
        return out
    if kind == "text":
        return list(batch)
    if kind == "redge":
        if any(int(x) != 2 for x in batch[:, 2].tolist()) or batch.shape[1] != 3:
            raise AssertionError("edge type not kept")
        return [x for e in batch.tolist() for x in e[:2]]
    x = batch.tolist()
    return [tuple(y) if isinstance(y, list) else y for y in x]


def worker_source(kind, c, w):
    """Indices of the elements worker w owns, in order, one epoch."""
    n, W = c["n"], c["W"]
    if kind in ("node", "edge", "feat"):
        per = per_file(n, c["files"])
        return [i for k in range(w, c["files"], W) for i in per[k]]
    if kind in ("tuple", "tuple2"):
        return list(range(w, n, W))
    return None


class Refused(Exception):
    pass


def make(kind, c, w, r, **kw):
    import numpy as np
    try:
        return build(kind, c, w, r, **kw)
    except (AssertionError, RuntimeError) as e:
        # a worker for which nothing is left is refused by the constructor
        raise Refused(str(e))


def max_batches(c):
    return 4 * (c["n"] * c["ep"] + 4)


def draw(kind, s, c, limit=None):
    out = []
    it = iter(s)
    for k in itertools.count():
        if limit is not None and k >= limit:
            break
        try:
            x = next(it)
        except StopIteration:
            break
        out.append(rows(kind, x))
        if k > max_batches(c):
            raise AssertionError("does not end")
    return out


def seed_all(k=5):
    import numpy as np
    np.random.seed(k)
    random.seed(k)


def judge_split(case, t, make=None, draw=None):
    make, draw = make or globals()["make"], draw or globals()["draw"]
    kind, c = case[0], dict(case[1])
    key = "%s" % kind
    cls = "%s:W%s:dp%s:%s%s%s" % (kind, min(c["W"], 2), min(c["dp"], 2), "d" if c["dl"] else "",
                                   "s" if c["sh"] else "", "e" if c["ep"] > 1 else "")
    n, b, W, dp, ep = c["n"], c["b"], c["W"], c["dp"], c["ep"]
    t.evals += 1
    pd = pads(kind)
    streams = {}
    first = c.get("first", 0)
    source = [elem(kind, i, first) for i in range(n)]
    bsz = 2 * b if kind == "redge" else b
    refused = False
    for w in range(W):
        for r in range(dp):
            seed_all()
            try:
                s = make(kind, c, w, r)
            except Refused:
                refused = True
                continue
            try:
                streams[w, r] = draw(kind, s, c)
            except AssertionError as e:
                if str(e):
                    t.violation(cls, "%s: %s in %r" % (kind, e, c), case)
                    return
                # no elements for this worker: refused at start of iteration
                own = worker_source(kind, c, w)
                if own is not None and own:
                    t.violation(cls, "worker %d/%d with data cannot iterate: %r" % (w, r, c), case)
                    return
            except Exception as e:
                t.violation(cls, "%s worker %d replica %d of %r raised %s: %s" % (
                    kind, w, r, c, type(e).__name__, e), case)
                return
            t.trans += len(streams.get((w, r), ())) + 1
    t.state(kind, c["dl"], sorted((k, str(v)) for k, v in streams.items()))
    t.sample({"kind": kind, "config": c, "batches": {"%d/%d" % k: v for k, v in streams.items()}})
    # shape
    for k, bs in streams.items():
        for i, x in enumerate(bs):
            full = len(x) == bsz
            if not full and not (kind in ("csv", "csv1") and 0 < len(x) < bsz):
                t.violation(cls, "%s batch %d of worker/replica %s has %d rows instead of %d (%r)" % (
                    kind, i, k, len(x), bsz, c), case)
                return
            npad = sum(1 for e in x if e in pd)
            if npad:
                if c["dl"]:
                    t.violation(cls, "%s padded a batch although incomplete batches are dropped (%r)" % (kind, c), case)
                    return
                if any(e in pd for e in x[:bsz - npad]) or npad == len(x):
                    t.violation(cls, "%s padding is not confined to the tail of a batch: %r (%r)" % (kind, x, c), case)
                    return
                if i != len(bs) - 1:
                    t.violation(cls, "%s padded a batch that is not the last: %r (%r)" % (kind, bs, c), case)
                    return
    real = {k: [e for x in bs for e in x if e not in pd] for k, bs in streams.items()}
    got = sorted(e for v in real.values() for e in v)
    if refused and not c["dl"]:
        # the constructor refused a worker that owns nothing; the rest must still cover everything
        pass
    want = sorted(source * ep)
    if not c["dl"]:
        if got != want:
            t.violation(cls, "%s: all workers and replicas together give %r, source is %r (%r)" % (
                kind, got, want, c), case)
            return
    else:
        # at most one incomplete batch is lost per stream that is cut into batches
        for e in set(got):
            if got.count(e) > want.count(e):
                t.violation(cls, "%s: %r delivered more often than it is in the source (%r)" % (kind, e, c), case)
                return
        if kind == "text":
            nmax = (b - 1) * W * dp
        else:
            nmax = (b - 1) * W
        if len(want) - len(got) > nmax:
            t.violation(cls, "%s: dropping the last batch lost %d elements (%r)" % (kind, len(want) - len(got), c),
                        case)
            return
    # order and per-epoch exactness inside a worker
    pos = {e: i for i, e in enumerate(source)}
    if not c["sh"]:
        for k, v in real.items():
            idx = [pos.get(e) for e in v]
            if any(i is None for i in idx):
                t.violation(cls, "%s: element not in the source: %r (%r)" % (kind, v, c), case)
                return
            desc = sum(1 for a, b2 in zip(idx, idx[1:]) if b2 <= a)
            if desc > ep - 1:
                t.violation(cls, "%s: source order not kept by worker/replica %s: %r (%r)" % (kind, k, v, c), case)
                return
    own = [worker_source(kind, c, w) for w in range(W)]
    if own[0] is not None:
        for w in range(W):
            ws = [elem(kind, i) for i in own[w]]
            total = [e for e in ws] * ep
            mine = sorted(e for (w2, r), v in real.items() if w2 == w for e in v)
            if not c["dl"] and mine != sorted(total):
                t.violation(cls, "%s: worker %d reads %r, its share is %r (%r)" % (kind, w, mine, ws, c), case)
                return
            # batches in turn over the replicas make up whole epochs
            turn = []
            for k in itertools.count():
                x = streams.get((w, k % dp), [])
                if k // dp >= len(x):
                    break
                turn.extend(e for e in x[k // dp] if e not in pd)
            for e0 in range(ep):
                seg = turn[e0 * len(ws):(e0 + 1) * len(ws)]
                whole = len(turn) >= (e0 + 1) * len(ws)
                if (whole and sorted(seg) != sorted(ws)) or (not c["sh"] and seg != ws[:len(seg)]):
                    t.violation(cls, "%s: epoch %d of worker %d is %r instead of %r (%r)" % (
                        kind, e0, w, seg, ws, c), case)
                    return


def split_cases():
    big = H.THOROUGH
    ns = range(1, 14)
    out = []
    for n in ns:
        for b in (1, 2, 3, 4):
            for W in (1, 2, 3):
                for dp in (1, 2, 3):
                    for first in (0, 5):
                        out.append(("range", tuple(sorted(dict(n=n, b=b, W=W, dp=dp, ep=1, dl=False, sh=False,
                                                               first=first).items()))))
                        if b <= 2 or big:
                            out.append(("redge", tuple(sorted(dict(n=n, b=b, W=W, dp=dp, ep=1, dl=False, sh=False,
                                                                   first=first).items()))))
                    for ep in (1, 2):
                        for dl in (False, True):
                            for sh in (False, True):
                                d = dict(n=n, b=b, W=W, dp=dp, ep=ep, dl=dl, sh=sh)
                                for kind in ("tuple", "tuple2"):
                                    if n >= W:
                                        out.append((kind, tuple(sorted(d.items()))))
                                for files in (1, 2, 3):
                                    if files < W or n < files:
                                        continue
                                    for kind in ("node", "edge", "feat"):
                                        out.append((kind, tuple(sorted(dict(d, files=files).items()))))
                    if W == 1:
                        for ep in (1, 2):
                            for kind in ("csv", "csv1"):
                                out.append((kind, tuple(sorted(dict(n=n, b=b, W=1, dp=dp, ep=ep, dl=False,
                                                                    sh=False).items()))))
    # larger sizes; the other options take turns
    for n, b, W, dp in itertools.product([14] + MORE, (1, 3, 4, 8, 16), (1, 2, 4, 5), (1, 2, 4, 5)):
        if n > 65 and b < 4:
            continue
        k = len(out)
        d = dict(n=n, b=b, W=W, dp=dp, ep=1 + k % 3, dl=k % 2 == 1, sh=k % 5 == 0)
        one = dict(d, ep=1, dl=False, sh=False)
        out.append(("range", tuple(sorted(dict(one, first=2 ** 40 * (k % 2)).items()))))
        out.append(("redge", tuple(sorted(dict(one, first=k % 7).items()))))
        for kind in ("tuple", "tuple2"):
            out.append((kind, tuple(sorted(d.items()))))
        for files in FILES:
            if W <= files <= n:
                for kind in ("node", "edge", "feat"):
                    out.append((kind, tuple(sorted(dict(d, files=files).items()))))
        if W == 1:
            for kind in ("csv", "csv1"):
                out.append((kind, tuple(sorted(dict(d, dl=False, sh=False).items()))))
    # text files are split by file over workers x replicas
    for n, b, files in itertools.product((13, 25, 33, 65, 100), (1, 4, 8), (4, 5, 12)):
        for W, dp in ((1, 1), (1, 4), (4, 1), (5, 1), (2, 2), (3, 4), (4, 3), (12, 1)):
            if W * dp <= files:
                k = len(out)
                out.append(("text", tuple(sorted(dict(n=n, b=b, W=W, dp=dp, ep=1 + k % 2, dl=k % 3 == 0, sh=k % 5 == 0, files=files,
                                                      buf=(4, 16, 100)[k % 3]).items()))))
    for n in (0, 1, 2, 3, 5, 8, 13):
        for b in (1, 2, 3):
            for files in (1, 2, 3):
                for W in (1, 2, 3):
                    for dp in (1, 2, 3):
                        if W * dp > files:
                            continue
                        for ep in (1, 2):
                            for dl in (False, True):
                                for sh in (False, True):
                                    out.append(("text", tuple(sorted(dict(
                                        n=n, b=b, W=W, dp=dp, ep=ep, dl=dl, sh=sh, files=files, buf=4).items()))))
    return out


def replay(path, fn):
    d = json.load(open(path))
    prepare(H.scratch())
    H.quiet_logging()
    t = H.Tally()
    kind, conf = d["replay"]
    fn((kind, tuple((k, v) for k, v in conf)), t)
    for v in t.violations:
        print(v)
    H.cleanup()
    sys.exit(1 if t.violations else 0)


# ---- D05: lengths and histories --------------------------------------------
OPS = ("len", "full", "part1", "part2", "reset", "copy", "extra")


class _Graph:
    """Stub graph that records sampling requests."""

    def __init__(self, n):
        self.n = n
        self.calls = []

    def node_count(self, types):
        return self.n

    def edge_count(self, types):
        return self.n

    def sample_nodes(self, size, types, strategy=None):
        import numpy as np
        self.calls.append(("n", size, repr(types), strategy))
        ids = np.arange(size) + 1000 * len(self.calls)
        return (ids, np.zeros(size)) if isinstance(types, np.ndarray) else ids

    def sample_edges(self, size, types, strategy=None):
        import numpy as np
        self.calls.append(("e", size, repr(types), strategy))
        return np.arange(size * 3).reshape(size, 3) + 1000 * len(self.calls)


def judge_history(case, t):
    kind, conf, hist = case[0], case[1], case[2]
    c = dict(conf)
    t.evals += 1
    if kind in ("genode", "geedge"):
        return judge_ge(case, t)
    seed_all()
    cls = "%s:%s" % (kind, "dp" if c["dp"] > 1 else "") + (":set" if c.get("via") else "")
    try:
        s = make(kind, c, c["w"], c["r"], via_setter=bool(c.get("via")))
        ref = draw(kind, make(kind, c, c["w"], c["r"]), c)
    except (Refused, AssertionError):
        t.state(kind, "refused")
        return
    t.state(kind, hist, c["dl"], str(ref))
    t.sample({"kind": kind, "config": c, "history": hist, "full": ref})
    trace = []
    it = None
    for op in hist:
        t.trans += 1
        try:
            if op == "len":
                got = len(s)
                if got != len(ref):
                    t.violation(cls + ":len", "%s reports %d batches and yields %d (%r)" % (kind, got, len(ref), c), case)
                    return
            elif op == "full":
                seed_all()
                got = draw(kind, s, c)
                if (got != ref) if not c["sh"] else (sorted(map(repr, sum(got, []))) != sorted(map(repr, sum(ref, [])))):
                    t.violation(cls + ":restart", "%s after %r yields %r, a fresh one %r (%r)" % (
                        kind, trace, got, ref, c), case)
                    return
            elif op in ("part1", "part2"):
                k = int(op[-1])
                it = iter(s)
                got = []
                for _ in range(k):
                    try:
                        got.append(rows(kind, next(it)))
                    except StopIteration:
                        break
                if not c["sh"] and got != ref[:k]:
                    t.violation(cls + ":restart", "%s after %r starts with %r, a fresh one with %r (%r)" % (
                        kind, trace, got, ref[:k], c), case)
                    return
            elif op == "reset":
                s.reset()
            elif op == "copy":
                if kind != "text":
                    s = pickle.loads(pickle.dumps(s))
            elif op == "extra":
                it = iter(s)
                n = 0
                while True:
                    try:
                        next(it)
                    except StopIteration:
                        break
                    n += 1
                    if n > max_batches(c):
                        raise AssertionError("does not end")
                for _ in range(2):
                    try:
                        x = next(it)
                    except StopIteration:
                        continue
                    t.violation(cls + ":end", "%s yields %r after its end (%r)" % (kind, x, c), case)
                    return
            trace.append(op)
        except Exception as e:
            t.violation(cls + ":raise", "%s: %s after %r raised %s: %s (%r)" % (
                kind, op, trace, type(e).__name__, e, c), case)
            return


def judge_ge(case, t):
    import numpy as np
    from deepgnn.graph_engine import samplers as S
    from deepgnn.graph_engine import SamplingStrategy
    kind, c, hist = case[0], dict(case[1]), case[2]
    n, b, W, dp, ep = c["n"], c["b"], c["W"], c["dp"], c["ep"]
    total = 0
    for strat in (SamplingStrategy.Weighted, SamplingStrategy.Random):
        for types in (1, np.array([0, 1])):
            for num in (-1, n + 3):
                g = _Graph(n)
                cls = S.GENodeSampler if kind == "genode" else S.GEEdgeSampler
                s = cls(g, types, b, ep, sample_num=num, num_workers=W, strategy=strat, data_parallel_num=dp,
                        data_parallel_index=c["r"])
                real = n if num == -1 else num
                for op in hist:
                    t.trans += 1
                    g.calls.clear()
                    if op in ("full", "len", "extra"):
                        out = []
                        it = iter(s)
                        while True:
                            try:
                                out.append(next(it))
                            except StopIteration:
                                break
                            if len(out) > 200:
                                break
                        if len(out) != len(s):
                            t.violation("%s:len" % kind, "%s reports %d, yields %d (%r)" % (kind, len(s), len(out), c), case)
                            return
                        need = ep * real
                        if len(out) * b * W * dp < need or (len(out) - 1) * b * W * dp >= need > 0:
                            t.violation("%s:count" % kind, "%s: %d batches of %d by %d workers for %d samples (%r)" % (
                                kind, len(out), b, W * dp, need, c), case)
                            return
                        want = [("n" if kind == "genode" else "e", b, repr(types), strat)] * len(out)
                        if g.calls != want:
                            t.violation("%s:args" % kind, "%s asked %r (%r)" % (kind, g.calls[:2], c), case)
                            return
                        for k, x in enumerate(out):
                            if kind == "genode":
                                ok = np.array_equal(x, np.arange(b) + 1000 * (k + 1))
                            else:
                                ok = np.array_equal(x, np.arange(b * 3).reshape(b, 3) + 1000 * (k + 1))
                            if not ok:
                                t.violation("%s:data" % kind, "%s returned %r (%r)" % (kind, x, c), case)
                                return
                    elif op.startswith("part"):
                        it = iter(s)
                        for _ in range(int(op[-1])):
                            try:
                                next(it)
                            except StopIteration:
                                break
                    elif op == "reset":
                        s.reset()
                t.state(kind, len(s), hist)


def history_cases():
    out = []
    hists = [h for d in (1, 2, 3) for h in itertools.product(OPS, repeat=d)]
    hists = [h for h in hists if h[-1] in ("len", "full", "extra", "part2")]
    short = [("len",), ("full",), ("extra",), ("len", "full", "len"), ("part1", "full", "len"), ("copy", "len", "full"),
             ("reset", "full"), ("full", "full"), ("part2", "part2", "full")]

    def confs(kind):
        for n in (range(1, 11) if kind != "text" else (0, 1, 4)):
            for b in (1, 2, 3):
                for W in (1, 2):
                    for dp in (1, 2, 3):
                        for w in range(W):
                            for r in range(dp):
                                d = dict(n=n, b=b, W=W, dp=dp, w=w, r=r, ep=1, dl=False, sh=False)
                                if kind in ("range", "redge"):
                                    yield dict(d, first=3)
                                    continue
                                if kind in ("csv", "csv1"):
                                    if W == 1:
                                        for ep in (1, 2):
                                            yield dict(d, ep=ep)
                                    continue
                                if kind in ("genode", "geedge"):
                                    if w == 0:
                                        for ep in (1, 2):
                                            yield dict(d, ep=ep)
                                    continue
                                for ep in (1, 2):
                                    for dl in (False, True):
                                        for sh in (False, True):
                                            if kind in ("node", "edge", "feat"):
                                                if n >= 2:
                                                    yield dict(d, ep=ep, dl=dl, sh=sh, files=2)
                                            elif kind == "text":
                                                if W * dp <= 3 and b < 3:
                                                    yield dict(d, ep=ep, dl=dl, sh=sh, files=3, buf=4)
                                            elif n >= W:
                                                yield dict(d, ep=ep, dl=dl, sh=sh)
    for kind in ("range", "redge", "csv", "csv1", "node", "edge", "feat", "tuple", "tuple2", "text", "genode", "geedge"):
        for c in confs(kind):
            deep = c["n"] in (1, 5) and c["b"] == 2 and c["W"] == 1 and not c["dl"] and c["ep"] == 1
            hs = hists if deep and kind != "text" else short
            if kind == "text":
                hs = [h for h in (hists if c["n"] == 4 and c["b"] == 2 and c["dp"] == 1 and c["W"] == 1 and c["ep"] == 1
                                  and not c["dl"] and not c["sh"] and H.THOROUGH else short) if "len" not in h]
            for h in hs:
                out.append((kind, tuple(sorted(c.items())), h))
                if kind not in ("text", "genode", "geedge") and c["dp"] > 1 and h in (("len", "full", "len"), ("full",)):
                    out.append((kind, tuple(sorted(dict(c, via=1).items())), h))
    return out


def replay_history(path):
    d = json.load(open(path))
    prepare(H.scratch())
    H.quiet_logging()
    t = H.Tally()
    kind, conf, hist = d["replay"]
    judge_history((kind, tuple((k, v) for k, v in conf), tuple(hist)), t)
    for v in t.violations:
        print(v)
    H.cleanup()
    sys.exit(1 if t.violations else 0)
