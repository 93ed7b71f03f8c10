"""C06: an interrupted conversion never passes for a complete graph."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import convlib as L  # noqa: E402
import vpfs  # noqa: E402

check = H.Check("C06", rule="one evaluation = one folder state left by a stop (or a failing call) at one file operation, "
                "judged as it is and after a rerun; distinct = different folder states",
                assumptions=["data not flushed before the stop is lost or kept as a whole per file; the metadata file "
                             "is cut at every byte", "file operations do not reorder across files"])

G = {
    "a": ((1, 0, 1.0, (("d", "int32", (1, 2)),), ((2, 0, 1.0, (("s", "x"),)), (3, 1, 0.5, ()))),
          (2, 1, 2.0, (), ()), (3, 0, 0.5, (None, ("s", "q")), ((1, 0, 1.0, ()),))),
    "b": ((5, 0, 1.0, (), ()), (6, 2, 1.5, (("s", "zz"),), ((5, 1, 1.0, ()),))),
    "empty": (),
}


def cases():
    out = []
    for g, (p, w), old, kw in itertools.product(
            G, ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3)), (None, "same", "b"),
            ((), (("watermark", 9),), (("skip_node_sampler", True), ("skip_edge_sampler", True)), (("debug", True),))):
        if old == g or ("debug", True) in kw and (p, w) != (1, 1) or kw and g == "empty":
            continue
        out.append((g, p, w, old, kw))
    # reruns and faults are split over processes: every k-th stop point belongs to shard k
    return [c + (s, 4) for c in out for s in range(4)]


def inputs(g, w):
    nodes = G[g]
    k = max(w, 1)
    return {"p%d.json" % i: "".join(L.to_json(n) + "\n" for j, n in enumerate(nodes) if j % k == i) for i in range(k)}


def convert(g, p, w, kw, before):
    """Run the conversion on top of the given folder content."""
    import contextlib
    import io
    cv, decoders, _, merger = L.prepare()
    hook = vpfs.VpFS.hook
    vpfs.reset({"/out/" + k: v for k, v in before.items()})
    vpfs.VpFS.hook = hook
    files = inputs(g, w)
    for n, text in files.items():
        vpfs.VpFS.files["/in/" + n] = text.encode()
    src = "vpfs://in/p0.json" if w == 1 else "vpfs://in"

    def go():
        for i in range(w):
            cv.MultiWorkersConverter(graph_path=src, output_dir="vpfs://out", decoder=decoders.JsonDecoder(),
                                     partition_count=p, worker_index=i, worker_count=w, thread_count=1,
                                     **dict(kw)).convert()
        if w > 1:
            merger.merge_metadata_files("vpfs://out")
    with contextlib.redirect_stdout(io.StringIO()):
        e = L.run(go)
    return e


def folder():
    return {k[5:]: v for k, v in vpfs.VpFS.files.items() if k.startswith("/out/")}


def states(op, path, arg):
    """Folder contents a stop at this operation can leave."""
    done = folder()
    lazy = dict(done)                       # buffered data lost
    eager = dict(done)                      # everything written so far kept
    for w in list(vpfs.VpFS.live.values()):
        if w._path.startswith("/out/") and not w.closed:
            eager[w._path[5:]] = w.getvalue()
    out = [(lazy, False), (eager, False)]     # (content, judged without a rerun)
    name = path[5:] if path.startswith("/out/") else None
    if name and op == "write":
        base = eager.get(name, b"")
        cuts = range(1, len(arg)) if name.startswith("meta") else (1, len(arg) // 2)
        for k in cuts:
            if 0 < k < len(arg):
                x = dict(eager)
                x[name] = base + arg[:k]
                out.append((x, name.startswith("meta") and k != len(arg) // 2))
    return out


def loadable(files):
    """The folder can be loaded: metadata parses and has what the loader needs."""
    try:
        m = json.loads(files.get("meta.json", b""))
    except ValueError:
        return False
    return isinstance(m, dict) and "partitions" in m


def complete(files, g, kw):
    try:
        m, parts = L.load(files)
    except L.Bad as x:
        return ["%s" % x]
    mark = dict(kw).get("watermark", -1)
    bad = L.diff_graph(G[g], parts) + L.judge_meta(m, G[g], parts, watermark=mark)
    for p in parts:
        for kind, n in (("node", m["node_type_count"]), ("edge", m["edge_type_count"])):
            if not dict(kw).get("skip_%s_sampler" % kind) and m["partitions"] and len(m["partitions"]) == 1:
                if not set(range(n)) <= set(L.aliases(files, kind, p)):
                    bad.append("%s tables missing" % kind)
    return bad


def run(case, t):
    g, p, w, old, kw, shard, shards = case

    def wrong(s):
        """Complaints about a folder that has metadata; the untouched old graph is fine."""
        bad = complete(s, g, kw)
        return [] if bad and old not in (None, "same") and not complete(s, old, kw) else bad
    vpfs.reset()
    before = {}
    if old is not None:
        e = convert(g if old == "same" else old, p, w, kw, {})
        before = folder()
        vpfs.reset()
    e = convert(g, p, w, kw, before)
    if e.error or e.outcome:
        t.violation("reference", "conversion fails: %r %r" % (e.error, e.outcome), case)
        return
    final = folder()
    for b in complete(final, g, kw):
        t.violation("reference", "complete conversion: %s" % b, case)
    # one run, all stop points
    seen = []
    vpfs.reset()

    def hook(op, path, arg):
        if not path.startswith("/out") or op in ("ls", "read"):
            return
        for s, norerun in states(op, path, arg):
            seen.append((op, path, s, norerun))
    vpfs.VpFS.hook = hook
    e = convert(g, p, w, kw, before)
    vpfs.VpFS.hook = None
    seen.append(("end", "", folder(), False))
    uniq = {}
    for op, path, s, norerun in seen:
        uniq.setdefault(repr(sorted(s.items())), (norerun, op, path, s))
    t.trans += len(seen)
    for k, (norerun, op, path, s) in enumerate(uniq.values()):
        if k % shards != shard:
            continue
        t.evals += 1
        t.state(sorted(s.items()))
        if loadable(s) and s != before:
            bad = wrong(s)
            if bad:
                t.violation("passes:%s" % ("fresh" if old is None else "over"),
                            "stopped at %s of %s the folder has metadata but %s; graph %s, %d partitions, %d workers, "
                            "folder before: %s" % (op, path, bad[0][:300], g, p, w, old), case)
        if norerun:
            continue
        e = convert(g, p, w, kw, s)
        after = folder()
        t.evals += 1
        if e.error or e.outcome or e.thread_errors:
            t.violation("rerun", "rerun after a stop at %s of %s fails: %r %r %r" % (
                op, path, e.error, e.outcome, e.thread_errors), case)
        elif after != final:
            names = sorted(x for x in set(after) | set(final) if after.get(x) != final.get(x))
            t.violation("rerun", "rerun after a stop at %s of %s gives different files %r; graph %s, %d partitions, %d "
                        "workers, folder before: %s" % (op, path, names, g, p, w, old), case)
    # every operation fails once
    ops = []

    def counted(op, path, arg):
        return path.startswith("/out") and (op in ("write", "close", "rm", "mv") or op == "open" and "r" not in arg)
    vpfs.VpFS.hook = lambda op, path, arg: ops.append((op, path)) if counted(op, path, arg) else None
    convert(g, p, w, kw, before)
    n = len(ops)
    for k in range(shard, n, shards):
        count = [0]

        def fault(op, path, arg):
            if counted(op, path, arg):
                count[0] += 1
                if count[0] - 1 == k:
                    raise vpfs.Fault("injected")
        vpfs.VpFS.hook = fault
        e = convert(g, p, w, kw, before)
        vpfs.VpFS.hook = None
        t.evals += 1
        t.trans += e.steps
        s = folder()
        t.state("fault", sorted(s.items()))
        what = "%s of %s" % (ops[k][0], ops[k][1])
        if e.outcome is not None:
            t.violation("fault:hang", "%s fails and conversion never ends: %r; %r" % (what, e.blocked_info, case), case)
        elif e.error is None and complete(s, g, kw):
            t.violation("fault:success", "%s fails, conversion reports success but %s; graph %s %d partitions %d workers" % (
                what, complete(s, g, kw)[0][:300], g, p, w), case)
        elif loadable(s) and s != before and wrong(s):
            t.violation("fault:passes", "%s fails, the folder has metadata but %s; graph %s, %d partitions, %d workers, "
                        "folder before: %s" % (what, complete(s, g, kw)[0][:300], g, p, w, old), case)
    t.count("stop_points", len(uniq) if shard == 0 else 0)
    t.sample({"graph": g, "partitions": p, "workers": w, "folder_before": old, "stop_points": len(uniq)})


L.main(check, run, cases(), chunk=1)
