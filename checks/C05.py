"""C05: parallel conversion never loses, repeats or mixes records and always ends."""
import hashlib
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import sched  # noqa: E402
import vpfs  # noqa: E402

check = H.Check("C05", rule="one evaluation = one complete schedule of dispatcher and converter workers; distinct = "
                "different (configuration, outcome, output files)",
                assumptions=["threads are switched at channel, lock, thread and file operations",
                             "a worker process that is killed from outside is not modelled"])


def node(i, fail):
    """Record i, made so that every field tells which record it came from."""
    return (i, i % 3, 1.0 + i, (("d", "int32", (i, i)),), ((i + 1, i % 2, 0.5 + i, (("s", "e%d" % i),)),))


def line(i, fail):
    return '{"node_id": %d}' % i if i in fail else L.to_json(node(i, fail))


def cases():
    """(kind, threads, workers, records, keys, failing, capacity, bound, mode)

    Bounds: preemptions for one worker, deviations from the round-robin schedule (delays) for more.
    """
    out = []
    T = H.THOROUGH

    def add(kind, threads, w, n, keys, fail, cap, b):
        mode = "preempt" if w == 1 else "delay"
        out.append((kind, threads, w, n, keys, fail, cap, b + T, mode))
    for threads in (True, False):
        for w in (1, 2, 3):
            for n in range(0, 6):
                for cap in (1, 2) if threads and n else (1,):
                    add("pipe", threads, w, n, None, (), cap, 3 if w > 1 and n + w <= 4 and threads else 2)
        for w in (1, 2, 3):
            for n in range(0, 4):
                for keys in itertools.product(range(w), repeat=n):
                    first = list(dict.fromkeys(keys))
                    if n + w == 6 and first != sorted(first):
                        continue        # same up to renaming workers
                    add("queue", threads, w, n, keys, (), 2, 3 if w == 2 and n < 3 and threads else 2)
        for keys in ((0, 0, 0, 0, 0), (0, 1, 0, 1, 0), (1, 1, 1, 0, 0), (0, 0, 0, 0, 1)):
            add("queue", threads, 2, 5, keys, (), 2, 2)
        # failing records
        for w in (1, 2, 3):
            for n in range(1, 5):
                for k in range(1, n + 1):
                    for fail in itertools.combinations(range(n), k):
                        if len(fail) > 2 and len(fail) != n:
                            continue
                        b = 2 if w == 2 and n < 4 else 1
                        add("pipe", threads, w, n, None, fail, 1, b)
                        if n < 4:
                            add("queue", threads, w, n, tuple(i % w for i in range(n)), fail, 2, b)
        for n in (4, 5):
            add("queue", threads, 2, n, (0,) * n, (0,), 2, 2)
            add("queue", threads, 2, n, (1,) * (n - 1) + (0,), (0,), 2, 2)
        # the output folder cannot be written
        for w in (1, 2):
            for n in (0, 2):
                add("pipe-nofs", threads, w, n, None, (), 1, 2)
                add("queue-nofs", threads, w, n, (0,) * n, (), 1, 2)
    # whole converter, with its file reader
    for w in (1, 2, 3):
        for n in (0, 1, 3):
            for fail in [()] + [(i,) for i in range(n)]:
                add("convert", True, w, n, None, fail, 1, 1)
    return out


def expected(w, n, keys, fail, every):
    """{partition: [records]}"""
    parts = {p: [] for p in range(w)} if every else {}
    for i in range(n):
        parts.setdefault(i % w if keys is None else keys[i], []).append(i)
    return parts


def judge(case, e, res, t, script, ref):
    kind, threads, w, n, keys, fail, cap, bound, mode = case
    rep = (case, tuple(script))

    def bad(key, text):
        t.violation("%s:%s:%s" % (kind, "threads" if threads else "processes", key),
                    "%s; %r schedule %r" % (text[:700], case, list(script)), rep)
    if e.outcome is not None:
        bad("hang", "conversion never ends (%s): %r; errors in workers: %r" % (e.outcome, e.blocked_info, e.thread_errors))
        t.state(case, "hang")
        return
    if fail or kind.endswith("nofs"):
        active = n > 0 or kind.startswith("pipe")
        if kind == "convert":
            if e.error is None or "/out/meta.json" in vpfs.VpFS.files:
                bad("success", "conversion with failing records %r reports success" % (fail,))
        elif e.error is None and active:
            bad("success", "a worker failed but join() returned normally: %r" % (e.thread_errors,))
        t.state(case, repr(e.error)[:40])
        return
    if e.error is not None or e.thread_errors:
        bad("error", "failed: %r %r" % (e.error, e.thread_errors))
        return
    files = L.output()
    parts = expected(w, n, keys, fail, kind != "queue" or threads)
    try:
        for p, recs in parts.items():
            nodes, _ = L.read_partition(files, p)
            got = [x[0] for x in nodes]
            if got != recs:
                bad("records", "partition %d holds records %r, dispatched %r" % (p, got, recs))
                return
            for (nid, tp, feats, es), i in zip(nodes, recs):
                m = node(i, fail)
                if (tp, [bytes(f) for f in feats]) != (m[1], [L.feature_bytes(f) for f in m[3]]) or \
                        [(x[0], x[1], x[2]) for x in es] != [(x[0], x[1], x[2]) for x in m[4]]:
                    bad("mixed", "record %d is stored as %r" % (i, (nid, tp, feats, es)))
                    return
    except L.Bad as x:
        bad("files", str(x))
        return
    if kind == "convert":
        d = ref.setdefault("files", files)
        if d != files:
            bad("files", "output differs from another schedule in %r" % sorted(
                k for k in set(d) | set(files) if d.get(k) != files.get(k)))
        m, ps = L.load(files)
        for b in L.judge_meta(m, [node(i, ()) for i in range(n)], ps):
            bad("meta", b)
        t.state(case, sorted(files.items()))
        return
    ms = [node(i, ()) for rs in parts.values() for i in rs]
    want = {"node_count": n, "edge_count": n, "node_type_num": max([x[1] for x in ms] + [-1]) + 1,
            "edge_type_num": max([x[4][0][1] for x in ms] + [-1]) + 1, "node_feature_count": 1 if n else 0,
            "edge_feature_count": 1 if n else 0}
    for k, v in want.items():
        if res.get(k) != v:
            bad("totals", "%s is %r, should be %r" % (k, res.get(k), v))
    ids = sorted(p["id"] for p in res["partitions"])
    if ids != sorted(parts):
        bad("totals", "partitions reported %r, used %r" % (ids, sorted(parts)))
    for p in res["partitions"]:
        mine = [node(i, ()) for i in parts.get(p["id"], [])]
        nw = [sum(x[2] for x in mine if x[1] == k) for k in range(want["node_type_num"])]
        ew = [sum(x[4][0][2] for x in mine if x[4][0][1] == k) for k in range(want["edge_type_num"])]
        nc = [sum(x[1] == k for x in mine) for k in range(want["node_type_num"])]
        ec = [sum(x[4][0][1] == k for x in mine) for k in range(want["edge_type_num"])]
        if (p["node_weight"], p["edge_weight"], p["node_type_count"], p["edge_type_count"]) != (nw, ew, nc, ec):
            bad("totals", "partition %d reports %r, should be %r" % (p["id"], p, (nw, ew, nc, ec)))
    mine = {k: v for k, v in files.items() if any(k.endswith("_%d.alias" % p) or "_%d_0." % p in k and not k.endswith(".alias") for p in parts)}
    h = hashlib.sha1(repr(sorted(mine.items())).encode()).hexdigest()
    if ref.setdefault("h", h) != h:
        bad("files", "output files depend on the schedule")
    t.state(case, h)


def make(case, res):
    kind, threads, w, n, keys, fail, cap, bound, mode = case
    convert, decoders, dispatcher, _ = L.prepare()
    lines = [line(i, fail) for i in range(n)]

    def start():
        sched.PIPE_CAPACITY[0] = cap
        vpfs.reset()
        res.clear()
        if kind.endswith("nofs"):
            def hook(op, path, arg):
                if op == "open" and "w" in arg:
                    raise vpfs.Fault("no space left")
            vpfs.VpFS.hook = hook

        def go():
            if kind == "convert":
                vpfs.VpFS.files["/in/g.json"] = "".join(x + "\n" for x in lines).encode()
                convert.MultiWorkersConverter(
                    graph_path="vpfs://in/g.json", output_dir="vpfs://out", decoder=decoders.JsonDecoder(),
                    partition_count=w, thread_count=1).convert()
                return
            if kind.startswith("pipe"):
                d = dispatcher.PipeDispatcher("vpfs://out", w, decoders.JsonDecoder(), use_threads=threads)
            else:
                pos = {x: keys[i] for i, x in enumerate(lines)}
                d = dispatcher.QueueDispatcher("vpfs://out", w, lambda x: pos[x], decoders.JsonDecoder(),
                                               use_threads=threads)
            for x in lines:
                d.dispatch(x)
            d.join()
            for k in ("node_count", "edge_count", "node_type_num", "edge_type_num", "node_feature_count",
                      "edge_feature_count", "partitions"):
                res[k] = d.prop(k)
        return go
    return start


def run(case, t):
    if isinstance(case[0], tuple):      # replay of one schedule
        case, script = case
        res = {}
        e = sched.Execution(list(script), case[7], case[8]).run(make(case, res)())
        judge(case, e, res, t, script, {})
        return
    res, ref = {}, {}
    st0 = len(t.violations)

    def visit(e, script):
        t.evals += 1
        t.trans += e.steps
        judge(case, e, res, t, script, ref)
        return len(t.violations) > st0 + 2
    st = sched.explore(make(case, res), case[7], visit, case[8], limit=20000)
    if st.capped:
        t.capped = True
        t.count("capped_configurations")
    t.count("configurations")
    t.sample({"configuration": repr(case), "schedules": st.executions})


L.main(check, run, cases(), chunk=1)
