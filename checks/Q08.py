"""Q08: a failed server request is reported, retried cleanly, and never returned as data."""
import itertools
import json
import logging
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import enginelib as E  # noqa: E402
import querylib as Q  # noqa: E402

check = H.Check("Q08", rule="one evaluation = one client call with one choice of failing replies and one order of the replies, also of late "
                "ones; distinct = different (call, failures and order, outcome)",
                assumptions=["a failed request reaches the client as an error status; the transport below that is a stand-in",
                             "a reply is handled before the next one is delivered",
                             "waiting between attempts takes no time: the waits are recorded"])

NEVER = E.NEVER
UNAVAILABLE = 14
EDGES = [(1, (2, 0, 1.0, (("s", "ab"),))), (1, (3, 1, 2.0, (("d", "int32", (4,)), ("sp", "int32", (1, 5), (7, -8))))), (1, (2, 1, 0.5, ())),
         (2, (1, 0, 1.0, ())), (3, (1, 0, 2.0, ())), (2, (3, 1, 1.0, (None, ("sp", "int32", (2,), (3,)))))]
RECS = [(1, 0, 1.0, (("d", "float32", (1.5, 2.5)), ("s", "xyz"))), (2, 1, 2.0, (("d", "float32", (0.5, 3.0)),)),
        (3, 0, 1.0, (None, ("s", "q"), ("sp", "int32", (3,), (9,))))]
TIMES = ((0, NEVER), (3, 9), (5, NEVER), (0, NEVER), (1, 4), (0, NEVER))
CALLS = ("types", "neighbours", "counts", "dense", "edge-dense", "string", "edge-string", "sparse", "edge-sparse", "weighted", "uniform",
         "distinct", "walk", "rank", "nodes", "edges", "connect", "new-nodes", "new-edges", "last", "at", "created")
ONCE = ("connect", "new-nodes", "new-edges")  # not asked again by the client

# Calls of several requests in turn: one failure less among three servers.
LONG = ("walk", "new-nodes", "new-edges")


def cases():
    out = []
    for call in CALLS:
        temporal = call in ("last", "at", "created")
        for groups in (((0,),), ((0,), (1,)), ((1, 0), ()), ((0,), (1,), (2,))):
            many = call in LONG
            for attempts, faults in ((1, 1), (2, 1), (2, 2), (3, 2)) if len(groups) < 3 else ((1, 2), (2, 1 if many else 2)):
                for late in (True, False):
                    out.append((call, temporal, groups, attempts, faults, late, UNAVAILABLE))
        # other failures than a server that can not be reached
        for code in range(1, 17):
            if code != UNAVAILABLE:
                out.append((call, temporal, ((0,), (1,)), 2, 1, False, code))
    for first, most, times, n in itertools.product(("1s", "2s", "0.5s"), ("4s", "90s", "2.5s"), (1, 2, 1.5), (2, 4, 7)):
        out.append(("waits", False, ((0,), (1,)), n, n, first, most, times))
    return out


def config(attempts, first="1s", most="4s", times=2):
    return [("grpc.service_config", json.dumps({"methodConfig": [{"name": [{}], "retryPolicy": {
        "maxAttempts": attempts, "initialBackoff": first, "maxBackoff": most, "backoffMultiplier": times,
        "retryableStatusCodes": ["UNAVAILABLE"]}}]}))]


class Sampler:
    """Draws from a sampler of nodes or edges."""

    def __init__(self, kind, edges, new):
        self.kind, self.edges, self.new, self.made = kind, edges, new, None

    def make(self, g):
        client = E.mods()[0]
        return (client.EdgeSampler if self.edges else client.NodeSampler)(g, -1, self.kind)

    def ask(self, g):
        s = self.make(g) if self.new else self.made
        r = s.sample(2, 5)
        if self.new:
            s.reset()
            s.reset = lambda: None
        return [tuple(int(v) for v in x) for x in zip(*r)]

    def judge(self, ref, rows):
        pop = {(a, e[0], e[1]) for a, es in ref.edges.items() for e in es} if self.edges else {(n, x[0]) for n, x in ref.nodes.items()}
        if len(rows) != 2 or any(x not in pop for x in rows) or self.kind == "withoutreplacement" and len(set(rows)) != 2:
            return "%r drawn from %r" % (rows, sorted(pop))
        return None


def requests(call, ref):
    """[(ask(graph), judge(answer) -> what is wrong or None)]"""
    ids = [1, 2, 3, 9]
    el = [(a, e[0], e[1]) for a, e in EDGES] + [(3, 2, 0)]

    def exact(q):
        name, ask, want = q
        w = want(ref)
        return ask, lambda x: None if x == w else "answer %r, should be %r" % (x, w)

    def sample(s):
        return s.ask, lambda rows: s.judge(ref, rows)

    if call == "types":
        return [exact(Q.q_types(ids))]
    if call == "neighbours":
        return [exact(Q.q_neighbors(ids, [0, 1]))]
    if call == "counts":
        return [exact(Q.q_counts(ids, [0, 1]))]
    if call == "dense":
        return [exact(Q.q_dense(ids, [(0, 2), (1, 1)], "float32"))]
    if call == "edge-dense":
        return [exact(Q.q_dense(el, [(0, 1)], "int32", edges=True))]
    if call == "string":
        return [exact(Q.q_string(ids, [1, 0]))]
    if call == "edge-string":
        return [exact(Q.q_string(el, [0], edges=True))]
    if call == "sparse":
        return [exact(Q.q_sparse(ids, [2], "int32"))]
    if call == "edge-sparse":
        return [exact(Q.q_sparse(el, [1], "int32", edges=True))]
    if call in ("weighted", "uniform", "distinct"):
        return [sample(Q.Sample(call, ids, [0, 1], 2))]
    if call == "last":
        return [sample(Q.Sample("last", ids, [0, 1], 2, [9, 4, 5, 6]))]
    if call == "at":
        return [exact(Q.q_neighbors(ids, [0, 1], [9, 2, 5, 6]))]
    if call == "created":
        return [exact(Q.q_created(ids, [0, 1], [5, 2, 5, 6])), sample(Q.Sample("uniform", ids, [0, 1], 2, [5, 2, 5, 6], True))]
    if call == "walk":
        def judge(walks):
            for w, s in zip(walks, ids):
                if len(w) != 3 or w[0] != s:
                    return "walk %r from %d" % (w, s)
                for i in (1, 2):
                    ok = {n[0] for n in ref.neighbors(w[i - 1], {0, 1})} | ({w[i - 2]} if i == 2 else set())
                    if w[i] not in ok and not (w[i] == -4 and not ref.neighbors(w[i - 1], {0, 1})):
                        return "walk %r" % (w,)
            return None
        return [(lambda g: g.random_walk(ids, [0, 1], 2, 2.0, 0.5, -4, 5).tolist(), judge)]
    if call == "rank":
        memo = []

        def judge(x):
            # all nodes of the graph reach each other
            for row, i in zip(x, ids):
                if {n for n, _ in row} != ({1, 2, 3} if i != 9 else {9, -4}):
                    return "%r of %d" % (row, i)
            memo.append(x)
            return None if x == memo[0] else "%r and %r" % (x, memo[0])

        def ask(g):
            n, w = g.ppr_neighbors(ids, [0, 1], 3, 0.5, 1e-3, -4, 0.0)
            return [sorted(zip(a, (round(v, 4) for v in b))) for a, b in zip(n.tolist(), w.tolist())]
        return [(ask, judge)]
    if call in ("nodes", "edges", "new-nodes", "new-edges"):
        return [sample_of(Sampler(k, call.endswith("edges"), call.startswith("new")), ref) for k in ("weighted", "uniform", "withoutreplacement")]
    raise KeyError(call)


def sample_of(s, ref):
    def ask(g):
        return s.ask(g)
    ask.sampler = s
    return ask, lambda rows: s.judge(ref, rows)


def run(case, t):
    call, temporal, groups, attempts, faults = case[:5]
    parts = max([p for ps in groups for p in ps]) + 1
    edges = [(a, e + ((TIMES[i],) if temporal else ())) for i, (a, e) in enumerate(EDGES)]
    if temporal:
        edges = [(a, e[:3] + ((), e[4])) for a, e in edges]
    recs = [r[:3] + ((),) for r in RECS] if temporal else RECS
    lay = Q.spread(recs, edges, [i % parts for i in range(len(edges))], parts, [i % parts for i in range(len(recs))])
    ref = E.Ref(lay)
    d = E.folder(E.files(lay, 10 if temporal else -1))
    logging.disable(logging.CRITICAL)
    waits = []
    real, time.sleep = time.sleep, waits.append
    c = None
    try:
        E.fault_code(UNAVAILABLE if call == "waits" else case[6])
        if call == "waits":
            c = E.Cluster(d, groups, options=config(attempts, *case[5:]))
            return backoff(t, c.g, ref, case, waits)
        c = E.Cluster(d, groups, options=config(attempts))
        if call == "connect":
            return connect(t, c, ref, case)
        late = case[5]
        for ask, judge in requests(call, ref):
            s = getattr(ask, "sampler", None)
            if s is not None and not s.new:
                s.made = s.make(c.g)
            explore(t, c.g, ask, judge, case, late)
            if s is not None and not s.new:
                s.made.reset()
                s.made.reset = lambda: None
    finally:
        time.sleep = real
        if c is not None:
            c.close()
        E.remove(d)


def explore(t, g, ask, judge, case, late):
    call, _, groups, attempts, faults = case[:5]
    key = "%s:" % call
    for r in E.explore(lambda: ask(g), E.ORDER | E.FAULT | (0 if late else E.LAZY), t, faults=faults):
        n = sum(k == E.FAULT and x for k, _, x, _ in r.trace)
        text = "%s from %d servers, %d attempts, failures (status %d) and order %r" % (call, len(groups), attempts, case[6], r.script)
        E.flush()
        if r.error is None:
            bad = judge(r.result)
            if bad is not None:
                t.violation(key + "wrong", "%s: %s" % (text, bad), case)
                return
        elif n < attempts and (n == 0 or call not in ONCE and case[6] == UNAVAILABLE):
            t.violation(key + "given-up", "%s: %s: %s after %d failed replies" % (text, type(r.error).__name__, str(r.error)[:200], n), case)
            return
        t.state(call, groups, attempts, case[6], tuple(r.script), r.error is None)
        try:
            bad = judge(ask(g))
        except Exception as e:
            bad = "%s: %s" % (type(e).__name__, str(e)[:200])
        if bad is not None:
            t.violation(key + "later", "%s, then again without failures: %s" % (text, bad), case)
            return


def connect(t, c, ref, case):
    client = E.mods()[0]
    _, ask, want = Q.q_neighbors([1, 2, 3, 9], [0, 1])

    def call():
        g = client.DistributedGraph(["s%d" % i for i in range(len(case[2]))], num_threads=1, grpc_options=config(case[3]))
        try:
            return g.meta.node_count, g.meta.edge_count
        finally:
            g.reset()
    for r in E.explore(call, E.ORDER | E.FAULT | (0 if case[5] else E.LAZY), t, faults=case[4]):
        n = sum(k == E.FAULT and x for k, _, x, _ in r.trace)
        E.flush()
        if r.error is None and r.result != (len(RECS), len(EDGES)) or r.error is not None and not n:
            t.violation("connect", "failures %r: %r %r" % (r.script, r.result, r.error), case)
        t.state(case, tuple(r.script), r.error is None)
        if ask(c.g) != want(ref):
            t.violation("connect:later", "failures %r: another client does not get the neighbours" % (r.script,), case)


def seconds(x):
    return float(x[:-1])


def backoff(t, g, ref, case, waits):
    """The waits between attempts grow from the first up to the longest one."""
    _, _, groups, attempts, faults, first, most, times = case
    _, ask, want = Q.q_neighbors([1, 2], [0, 1])
    w = want(ref)
    for r in E.explore(lambda: ask(g), E.FAULT | E.LAZY, t, faults=faults, cap=40):
        E.flush()
        n = sum(k == E.FAULT and x for k, _, x, _ in r.trace)
        lo, hi = min(seconds(first), seconds(most)), max(seconds(first), seconds(most))
        bad = None
        if r.error is None and r.result != w:
            bad = "answer %r" % (r.result,)
        elif r.error is not None and (n < attempts or len(waits) != attempts - 1):
            bad = "%s after %d failed replies and %d waits" % (r.error, n, len(waits))
        elif any(not lo <= x <= hi for x in waits) or sorted(waits) != waits:
            bad = "waits %r" % (waits,)
        if bad:
            t.violation("waits", "at most %d attempts, waits from %s to %s growing by %s: %s" % (attempts, first, most, times, bad), case)
            return
        t.state(case, tuple(waits))
        waits.clear()


E.main(check, run, cases(), crash_key=lambda c: "crash:" + c[0])
