"""D03: prefetching delivers every batch exactly once, surfaces errors and ends."""
import contextlib
import io
import itertools
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sched  # noqa: E402
sched.install(mp=False)
import harness as H  # noqa: E402

check = H.Check("D03", rule="one evaluation = one complete use of a prefetching iterator under one schedule; distinct = "
                "different (configuration, delivered batches, error, order)",
                assumptions=["one producing loop per iterator (the default), with 1-3 query threads",
                             "sampler and query are deterministic functions with an optional failure at one batch"])


class Boom(Exception):
    pass


class Sampler:
    batch_size = 1

    def __init__(self, n, bad):
        self.n, self.bad, self.k = n, bad, 0

    def __len__(self):
        return self.n

    def __iter__(self):
        self.k = 0
        return self

    def __next__(self):
        self.k += 1
        if self.k - 1 == self.bad:
            raise Boom("sampler fails at %d" % (self.k - 1))
        if self.k > self.n:
            raise StopIteration
        return [self.k - 1]


def scenario(c):
    """Runs in the managed main thread; returns what the consumer saw."""
    from deepgnn.graph_engine.prefetch import Generator

    def query(graph, x):
        cur = sched._cur()
        cur[0].point(cur[1])
        if x[0] == c["qbad"]:
            raise Boom("query fails at %d" % x[0])
        return (graph, x[0])
    seen = []
    g = object()
    if c["kind"] == "gen":
        it = Generator(g, Sampler(c["n"], c["sbad"]), query, prefetch_size=c["q"], max_parallel=c["par"])
        its = [it]
    else:
        from deepgnn.graph_engine.graph_dataset import DeepGNNDataset
        from deepgnn.graph_engine import samplers

        class S(samplers.BaseSampler):
            def __init__(self, n, bad):
                super().__init__(batch_size=1, epochs=1, shuffle=False)
                self.inner = Sampler(n, bad)

            def __len__(self):
                return self.inner.n

            def __iter__(self):
                return iter(Sampler(self.inner.n, self.inner.bad))

        class B:
            graph = g
        ds = DeepGNNDataset(S, query, backend=B(), enable_prefetch=c["kind"] == "dsp", n=c["n"], bad=c["sbad"],
                            prefetch_queue_size=c["q"], prefetch_worker_size=c["par"])
        its = (iter(ds) for _ in range(2))
        it = None
    for it in its:
        got, err, post = [], None, []
        it2 = iter(it)
        if c["pause"]:
            time.sleep(10)
        try:
            for _ in range(c["take"] if c["take"] >= 0 else 100):
                x = next(it2)
                got.append(x)
            else:
                err = "left" if c["take"] >= 0 else "endless"
        except StopIteration:
            err = "stop"
        except sched.Abort:
            raise
        except Exception as e:
            err = "error: " + ("Boom" if "Boom" in repr(e) or "fails at" in str(e) else repr(e))
            e = None
        if err != "left" and c["kind"] != "ds":
            for _ in range(2):
                try:
                    y = next(it2)
                    post.append(y if not (isinstance(y, tuple) and y[0] is g) else y[1])
                except StopIteration:
                    post.append("stop")
                except sched.Abort:
                    raise
                except Exception as e:
                    post.append(repr(e))
                    e = None
        got = [y[1] if isinstance(y, tuple) and y[0] is g else repr(y) for y in got]
        seen.append((got, err, post))
        x = None
        if c["pause"]:
            time.sleep(10)
        if c["close"] and hasattr(it, "join"):
            it.join()
        del it, it2
    return seen


def judge_exec(e, t, c, rep):
    what = "%r" % (c,)
    if e.outcome or e.error is not None:
        t.violation("exec:" + (e.outcome or "error"), "%s: %s %r %r" % (what, e.outcome, e.error, e.blocked_info), rep)
        return
    t.state(c, str(e.result))
    n = c["n"]
    for got, err, post in e.result:
        rep2 = rep
        if any(not isinstance(x, int) for x in got):
            t.violation("marker", "%s: something that is no batch is delivered: %r" % (what, got), rep2)
            return
        if len(set(got)) != len(got) or any(x < 0 or x >= n for x in got):
            t.violation("dup", "%s: batches %r" % (what, got), rep2)
            return
        if (c["par"] == 1 or c["kind"] == "ds") and got != sorted(got):
            t.violation("order", "%s: batches %r out of order" % (what, got), rep2)
            return
        fails = 0 <= c["qbad"] < n or 0 <= c["sbad"] <= n
        if not fails:
            want = n if c["take"] < 0 else min(n, c["take"])
            if len(got) != want or (err == "stop") != (c["take"] < 0 or c["take"] > n):
                t.violation("lost", "%s: delivered %r and then %s" % (what, got, err), rep2)
                return
            if (c["par"] == 1 or c["kind"] == "ds") and got != list(range(want)):
                t.violation("lost", "%s: delivered %r" % (what, got), rep2)
                return
        else:
            if err in ("stop", "endless"):
                t.violation("swallowed", "%s: delivered %r and then ended with %s, no error" % (what, got, err), rep2)
                return
            if err.startswith("error") and err != "error: Boom":
                t.violation("errkind", "%s: %s" % (what, err), rep2)
                return
            bad = c["qbad"] if 0 <= c["qbad"] < n else c["sbad"]
            if c["qbad"] >= 0 and bad in got:
                t.violation("dup", "%s: delivered %r" % (what, got), rep2)
                return
            if c["par"] == 1 and c["qbad"] >= 0 and c["sbad"] < 0 and err != "left" and got != list(range(bad)):
                t.violation("lost", "%s: delivered %r before the error" % (what, got), rep2)
                return
        if any(p != "stop" for p in post):
            t.violation("after", "%s: after %s the iterator gives %r" % (what, err, post), rep2)
            return
    t.sample({"config": c, "seen": [[list(a), b, d] for a, b, d in e.result]})


def quietly(fn):
    def f():
        return fn()
    return f


def run(case, t):
    c = dict(case)
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        e = sched.Execution(max_steps=40000).run(lambda: scenario(c))
    finally:
        sys.stdout = out
    t.evals += 1
    t.trans += e.steps
    judge_exec(e, t, c, [list(case)])


def case(kind, n, q, par, take, close, sbad, qbad, pause):
    return (("kind", kind), ("n", n), ("q", q), ("par", par), ("take", take), ("close", close), ("sbad", sbad),
            ("qbad", qbad), ("pause", pause))


def cases():
    for kind in ("gen", "dsp", "ds"):
        for n in range(0, 5):
            for q, pause in ((1, False), (2, False), (8, False), (1, True), (8, True)):
                for par in (1, 2, 3):
                    for take in [-1] + list(range(0, n + 2)):
                        for close in (False, True):
                            for sbad, qbad in [(-1, -1)] + [(i, -1) for i in range(n + 1)] + [(-1, i) for i in range(n)]:
                                if kind == "ds" and (q > 1 or par > 1 or close):
                                    continue
                                if kind == "dsp" and (close or q == 2):
                                    continue
                                yield case(kind, n, q, par, take, close, sbad, qbad, pause)
    # more batches than the executor admits at once
    for n in (19, 20, 21, 22, 45):
        for q in (1, 8):
            for par in (1, 2, 3):
                for take in (-1, 3, 21):
                    for qbad in (-1, 2, n - 1):
                        yield case("gen", n, q, par, take, take == 3, -1, qbad, take == 21)


def cfg(n, q, par, take=-1, close=False, sbad=-1, qbad=-1, kind="gen", pause=False):
    return dict(pause=pause, kind=kind, n=n, q=q, par=par, take=take, close=close, sbad=sbad, qbad=qbad)


SCHED = [
    (cfg(2, 1, 1), 2), (cfg(3, 1, 2), 1), (cfg(3, 2, 3), 1), (cfg(2, 2, 2), 1), (cfg(3, 8, 2, take=1, close=True, pause=True), 1), (cfg(0, 1, 1), 2),
    (cfg(2, 1, 1, qbad=0), 1), (cfg(2, 1, 2, qbad=1), 2), (cfg(3, 2, 2, qbad=0), 1), (cfg(3, 1, 1, qbad=2), 1),
    (cfg(2, 1, 1, sbad=1), 1), (cfg(2, 2, 2, sbad=2), 1), (cfg(3, 1, 2, take=1), 1), (cfg(3, 1, 1, take=0), 1),
    (cfg(3, 1, 1, take=2, close=True), 1), (cfg(3, 1, 2, take=1, close=True, qbad=1), 1), (cfg(2, 1, 1, kind="dsp"), 1),
    (cfg(3, 1, 2, take=1, kind="dsp"), 1),
]


def main():
    H.quiet_logging()
    import deepgnn.graph_engine.graph_dataset  # noqa: F401
    H.scratch()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))["replay"]
        t = H.Tally()
        c = dict(d[0]) if len(d) == 1 else d[0]
        e = sched.Execution(d[2] if len(d) > 1 else [], d[1] if len(d) > 1 else 1, "delay",
                            max_steps=40000).run(lambda: scenario(c))
        judge_exec(e, t, c, d)
        print(t.violations)
        H.cleanup()
        sys.exit(1 if t.violations else 0)
    H.run_cases(check, run, cases(), case_timeout=100)

    real = sys.stdout
    for k, (c, bound) in enumerate(SCHED):
        bound += 1 if H.THOROUGH else 0

        def j(e, t, script, c=c, bound=bound):
            judge_exec(e, t, c, [c, bound, script])
        n0 = check.tally.evals
        with contextlib.redirect_stdout(io.StringIO()):
            H.explore_parallel(check, "cfg%d" % k, lambda c=c: (lambda: scenario(c)), j, bound, "delay", max_steps=40000)
        sys.stdout = real
        check.notes["schedules_%d" % k] = check.tally.evals - n0
    check.finish()


if __name__ == "__main__":
    main()
