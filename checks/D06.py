"""D06: the uploader writes every chunk exactly once, reports what it could not write, and ends."""
import contextlib
import io
import itertools
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sched  # noqa: E402
sched.install()
import harness as H  # noqa: E402

check = H.Check("D06", rule="one evaluation = one complete use of the uploader (create, write, close) under one schedule; distinct = "
                "different (configuration, files written, what the caller was told)",
                assumptions=["a process stands for a managed thread; schedules switch at queue, thread and storage operations",
                             "the storage is a stand-in that keeps files in memory, and can be slow or fail at one of its operations"])

XML = "".join("<property><name>fs.adl.oauth2.%s</name><value>x</value></property>" % n for n in ("client.id", "credential", "refresh.url"))


class Boom(Exception):
    pass


class Store:
    """Files in memory; one operation may fail."""

    files, ops, fault, slow, broken = {}, [0], None, 0, False

    def __init__(self, *a, **kw):
        pass

    @classmethod
    def step(cls, kind):
        c = sched._cur()
        if c is not None:
            c[0].point(c[1])
        if cls.slow:
            time.sleep(cls.slow)
        k = cls.ops[0]
        cls.ops[0] += 1
        if cls.fault == k:
            cls.broken = True
            raise Boom("%s fails" % kind)

    def open(self, path, mode="rb", **kw):
        Store.step("open")
        if path in Store.files and Store.files[path][1] is not None:
            raise RuntimeError("%s is open" % path)
        Store.files[path] = [[], self]
        return File(path)


class File:
    def __init__(self, path):
        self.path = path

    def write(self, data):
        Store.step("write")
        Store.files[self.path][0].append(bytes(data))

    def close(self):
        Store.step("close")
        Store.files[self.path][1] = None

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def auth(**kw):
    if Store.fault == "auth":
        Store.broken = True
        raise Boom("no access")
    return "token"


def scenario(c):
    from deepgnn.graph_engine.adl_uploader import AdlDataWriter
    Store.files, Store.ops, Store.fault, Store.slow, Store.broken = {}, [0], c["fault"], c["slow"], False
    told = []
    w = None

    def tell(fn):
        try:
            return fn()
        except sched.Abort:
            raise
        except Exception as e:
            told.append("error")
            told.append(type(e).__name__)
            return None
    w = tell(lambda: AdlDataWriter("store", "out", max_chunks_per_file=c["most"], process_num=c["procs"], threads_per_process=c["threads"],
                                   queue_size=c["queue"], max_lines_per_chunk=c["lines"]))
    if w is not None:
        for op in c["ops"]:
            if op[0] == "w":
                tell(lambda: w.write(op[1]))
            elif op[0] == "l":
                if tell(lambda: w.writelines(list(op[1]))) is False:
                    told.append("error")
            else:
                time.sleep(op[1])
        if c["end"] == "with":
            tell(lambda: w.__exit__(None, None, None))
        else:
            tell(w.close)
            if c["end"] == "twice":
                tell(w.close)
    files = {k: (tuple(v[0]), v[1] is None) for k, v in Store.files.items()}
    return files, tuple(told), Store.broken


def chunks(c):
    """Texts that have to be written without a break: (text, separately)"""
    out = []
    for op in c["ops"]:
        if op[0] == "w":
            out.append(op[1].encode())
        elif op[0] == "l":
            xs = [str(x) for x in op[1]]
            out += [("\n".join(xs[i:i + c["lines"]]) + "\n").encode() for i in range(0, len(xs), c["lines"])]
    return [x for x in out if x]


def judge(e, t, c, rep):
    what = "%r" % (c,)
    if e.outcome or e.error is not None:
        t.violation("hang" if e.outcome else "error", "%s: %s %r %r" % (what, e.outcome, e.error, e.blocked_info), rep)
        return
    files, told, broken = e.result
    t.state(c, sorted(files.items()), told)
    want = chunks(c)
    got = [x for f, _ in files.values() for x in f if x]
    if told and not broken:
        t.violation("refused", "%s: %r although nothing failed" % (what, told), rep)
    elif sorted(got) != sorted(want):
        # an operation that fails has to be reported; what was reported need not be complete
        if not (broken and "error" in told):
            t.violation("lost" if broken else "chunks", "%s: %r written, should be %r; told %r" % (what, sorted(got), sorted(want), told), rep)
    elif not broken and not all(done for _, done in files.values()):
        t.violation("open", "%s: files %r are left open" % (what, [k for k, (_, d) in files.items() if not d]), rep)
    elif broken and "error" not in told:
        t.violation("unreported", "%s: a failure of the storage is not reported" % what, rep)
    if len(set(got)) == len(got) or not broken:
        dup = [x for x in set(got) if got.count(x) > want.count(x)]
        if dup:
            t.violation("twice", "%s: %r written again" % (what, dup), rep)
    if c["most"] and any(len(f) > c["most"] for f, _ in files.values()):
        t.violation("size", "%s: a file with more than %d chunks: %r" % (what, c["most"], files), rep)
    if not all(k.startswith("out") for k in files):
        t.violation("names", "%s: files %r" % (what, sorted(files)), rep)


def cfg(ops, procs=1, threads=1, most=0, queue=10, lines=2, fault=None, slow=0, end="close"):
    return dict(ops=ops, procs=procs, threads=threads, most=most, queue=queue, lines=lines, fault=fault, slow=slow, end=end)


def execute(c):
    with contextlib.redirect_stderr(io.StringIO()):
        return sched.Execution(max_steps=60000).run(lambda: scenario(c))


def run(case, t):
    c = dict(case)
    e = execute(c)
    t.evals += 1
    t.trans += e.steps
    judge(e, t, c, [list(case)])


W = tuple(("w", "chunk %d;" % i) for i in range(12))
OPS = [(), W[:1], W[:2], W[:5], (("l", ()),), (("l", ("a",)),), (("l", ("a", "b")),), (("l", ("a", "b", "c")), ("w", "d")),
       (("l", tuple("abcdefg")), ("l", (1, 2.5, "x"))), (("w", ""),) + W[:3], W[:1] + (("w", ""), ("w", "")) + W[1:4],
       (("w", "é\n"), ("l", ("é", "", "z"))), W[:2] + (("s", 100),) + W[2:4], (("l", tuple(range(30))),), W]


def cases():
    for ops in OPS:
        for procs, threads, most, queue, lines in itertools.product((1, 2, 3), (1, 2), (0, 1, 2), (1, 10), (1, 2, 1000)):
            for slow in (0, 5):
                for end in ("close", "twice", "with"):
                    if (slow or end != "close") and (most == 1 or lines == 1000 or procs == 3):
                        continue
                    yield tuple(cfg(ops, procs, threads, most, queue, lines, None, slow, end).items())
            # one failing operation
            if most != 1 and lines != 1000 and procs < 3:
                for fault in [0, 1, 2, 3, 5, "auth"]:
                    for slow in (0, 5):
                        yield tuple(cfg(ops, procs, threads, most, queue, lines, fault, slow, "close").items())


SCHED = [
    (cfg(W[:2]), 2), (cfg(W[:3], threads=2), 2), (cfg(W[:2], procs=2), 2), (cfg(W[:3], procs=2, threads=2), 1), (cfg(W[:3], queue=1), 2),
    (cfg(W[:4], most=1, threads=2), 1), (cfg((("l", ("a", "b", "c")),), queue=1, procs=2), 1), (cfg(()), 2),
    (cfg(W[:2], end="twice"), 1),
    (cfg(W[:2], fault=0), 2), (cfg(W[:2], fault=1, threads=2), 1), (cfg(W[:2], fault=0, procs=2), 1), (cfg(W[:3], fault=0, queue=1), 1),
    (cfg(W[:2], fault="auth"), 2), (cfg(W[:4], fault="auth", queue=1), 1), (cfg((("l", ("a", "b", "c")),), fault=0, queue=1, procs=2), 1),
    (cfg(W[:2] + (("s", 35),) + W[2:5], fault=0, queue=2), 1), (cfg((("l", ("a",)), ("s", 35), ("l", ("b", "c"))), fault=1, queue=2), 1),
]


def main():
    H.quiet_logging()
    from azure.datalake.store import core, lib
    core.AzureDLFileSystem, lib.auth = Store, auth
    d = os.path.join(H.scratch(), "hadoop")
    os.makedirs(os.path.join(d, "etc/hadoop"), exist_ok=True)
    with open(os.path.join(d, "etc/hadoop/core-site.xml"), "w") as f:
        f.write("<configuration>%s</configuration>" % XML)
    os.environ["HADOOP_HOME"] = d
    import deepgnn.graph_engine.adl_uploader  # noqa: F401
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))["replay"]
        t = H.Tally()
        c = dict(d[0]) if len(d) == 1 else d[0]
        e = sched.Execution(d[2] if len(d) > 1 else [], d[1] if len(d) > 1 else 1, "delay", max_steps=60000).run(lambda: scenario(c))
        judge(e, t, c, d)
        print(t.violations)
        H.cleanup()
        sys.exit(1 if t.violations else 0)
    H.run_cases(check, run, cases(), case_timeout=100)
    execute(cfg(W[:2]))  # imports what is imported on first use
    for k, (c, bound) in enumerate(SCHED):
        bound += 1 if H.THOROUGH else 0

        def j(e, t, script, c=c, bound=bound):
            judge(e, t, c, [c, bound, script])
        n0 = check.tally.evals
        with contextlib.redirect_stderr(io.StringIO()):
            H.explore_parallel(check, "cfg%d" % k, lambda c=c: (lambda: scenario(c)), j, bound, "delay", max_steps=60000)
        check.notes["schedules_%d" % k] = check.tally.evals - n0
    check.finish()


if __name__ == "__main__":
    main()
