"""D02: the text reader can be restarted or abandoned and reports read failures."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sched  # noqa: E402
sched.install(mp=False)
import harness as H  # noqa: E402
import textlib as L  # noqa: E402
import vpfs  # noqa: E402

check = H.Check("D02", rule="one evaluation = one history of iterate/stop/restart (with or without an injected failure) "
                "under one schedule; distinct = different (history, configuration, delivered batches)",
                assumptions=["blank lines carry no data and are ignored on both sides",
                             "the injected failure is an exception raised by open, seek or read of the file object"])

FILES = {"one": [(0, 3, 1, 3, 2, 3, 0)], "two": [(0, 3, 1, 3), (2, 3, 0, 3)], "empty": [()], "nonl": [(0, 3, 1)]}
OPS = ("all", "p0", "p1", "p2", "twice", "del", "nextend")


class Count:
    def __init__(self, at, op):
        self.n, self.at, self.op, self.hit = 0, at, op, False

    def __call__(self, op, path, arg):
        cur = sched._cur()
        if cur is not None:
            cur[0].point(cur[1])
        if op == self.op:
            self.n += 1
            if self.n == self.at:
                self.hit = True
                raise vpfs.Fault("injected failure of %s number %d" % (op, self.n))


def history(datas, c, hist, fault):
    """Perform the history; returns list of (op, batches, error)."""
    out = []
    r = L.reader(datas, c)
    cnt = Count(*fault) if fault else Count(-1, "")
    vpfs.VpFS.hook = cnt
    for op in hist:
        got, err, again = [], None, None
        try:
            if op == "all":
                got = L.run_all(r)
            elif op[0] == "p":
                it = iter(r)
                for _ in range(int(op[1])):
                    got.append(list(next(it)))
            elif op == "twice":
                iter(r)
                it = iter(r)
                got.append(list(next(it)))
            elif op == "del":
                hook = vpfs.VpFS.hook
                it = iter(r)
                del it
                del r
                r = L.reader(datas, c)
                vpfs.VpFS.hook = hook
            elif op == "nextend":
                it = iter(r)
                got = L.run_all(it)
                # past the end it stays ended
                it = r
                try:
                    next(it)
                    again = "yields past the end"
                except StopIteration:
                    pass
        except StopIteration:
            err = "stop"
        except sched.Abort:
            raise
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
            e = None
        out.append((op, got, err, again, cnt.hit))
    if hist and hist[-1] != "all":
        # abandoned: the iterator is simply dropped
        vpfs.VpFS.hook = None
    return out, cnt.hit


def full(files, c):
    want = [x for f in files for x in L.expect(L.data_of(f))] * c.get("ep", 1)
    return [want[i:i + c["b"]] for i in range(0, len(want), c["b"])]


def judge_one(e, t, fname, c, hist, fault, rep):
    what = "%s %r history %r failure %r" % (fname, c, hist, fault)
    if e.outcome or e.error is not None:
        t.violation("hist:" + (e.outcome or "error"), "%s: %s %r %r" % (what, e.outcome, e.error, e.blocked_info), rep)
        return
    res, hit = e.result
    want = full(FILES[fname], c)
    t.state(fname, c, hist, fault, str(res))
    failed = False
    for op, got, err, again, h in res:
        first = h and not failed     # the failure happened in this or an earlier abandoned step
        clean = [x for x in got]
        if again:
            t.violation("again", "%s: %s %s" % (what, op, again), rep)
            return
        if clean != want[:len(clean)]:
            t.violation("prefix" if not h else "prefix:fault", "%s: %s yields %r instead of %r" % (what, op, got, want), rep)
            return
        if not h and err not in (None, "stop"):
            t.violation("error", "%s: %s fails with %s" % (what, op, err), rep)
            return
        need = {"all": None, "nextend": None, "p0": 0, "p1": 1, "p2": 2, "twice": 1, "del": 0}[op]
        complete = clean == want if need is None else len(clean) == min(need, len(want))
        if first and op == "all" and err is None and not complete:
            t.violation("swallowed", "%s: %s yields %r and ends without an error" % (what, op, got), rep)
            return
        if err == "stop" and (first or not h) and clean != want:
            t.violation("swallowed", "%s: %s ends after %r without an error" % (what, op, got), rep)
            return
        if not first and not complete:
            t.violation("restart", "%s: %s yields %r (%s) instead of %r" % (what, op, got, err, want), rep)
            return
        if first and res[0][0] == op and op in ("all", "nextend") and err is None:
            t.violation("swallowed", "%s: %s yields %r and ends without an error" % (what, op, got), rep)
            return
        if h:
            if first and op in ("all", "nextend"):
                failed = True
            elif first and err is not None:
                failed = True
            elif first:
                # failure inside read-ahead of a partial pass: consumer left before it
                failed = True
    t.sample({"file": fname, "config": c, "history": list(hist), "failure": fault, "steps": [list(x[:3]) for x in res]})


def judge(case, t):
    fname, conf, hist, fault = case
    c = dict(conf)
    datas = [L.data_of(x) for x in FILES[fname]]
    e = sched.Execution(max_steps=80000)
    e.run(lambda: history(datas, c, hist, fault))
    t.evals += 1
    t.trans += e.steps
    judge_one(e, t, fname, c, hist, fault, list(case))


def cf(**k):
    return tuple(sorted(k.items()))


def cases():
    confs = [cf(blk=b, th=th, b=bs, q=q) for b, th, bs, q in
             ((1, 1, 1, 1), (2, 2, 2, 1), (3, 2, 1, 2), (50, 3, 2, 1), (4, 1, 3, 3))]
    for fname in FILES:
        for conf in confs:
            for n in (1, 2, 3):
                for hist in itertools.product(OPS, repeat=n):
                    if n == 3 and (hist[-1] not in ("all", "p1") or conf not in confs[1:3]) and not H.THOROUGH:
                        continue
                    yield (fname, conf, hist, None)
    for fname in ("one", "two", "nonl"):
        for conf in confs + [cf(blk=2, th=3, b=2, q=1, ep=2)]:
            for op in ("open", "read"):
                for at in range(1, 16):
                    for hist in (("all",), ("all", "all"), ("nextend", "all"), ("p1", "all"), ("p0", "all"), ("p2", "all", "all"),
                                 ("twice", "all")):
                        yield (fname, conf, hist, (at, op))


SCHED = [
    ("restart", "nonl", cf(blk=20, th=1, b=1, q=1), ("p1", "all"), None, 2),
    ("restart2", "one", cf(blk=3, th=2, b=2, q=1), ("p1", "all"), None, 1),
    ("abandon", "one", cf(blk=3, th=2, b=1, q=1), ("p1",), None, 1),
    ("abandon0", "one", cf(blk=3, th=1, b=1, q=1), ("p0", "del"), None, 1),
    ("twice", "nonl", cf(blk=20, th=1, b=1, q=1), ("twice", "all"), None, 1),
    ("fail1", "nonl", cf(blk=20, th=2, b=1, q=1), ("all", "all"), (1, "read"), 1),
    ("fail2", "nonl", cf(blk=2, th=2, b=1, q=1), ("all",), (2, "read"), 1),
    ("fail3", "nonl", cf(blk=2, th=2, b=1, q=1), ("all", "all"), (3, "open"), 1),
    ("fail4", "two", cf(blk=20, th=1, b=1, q=1), ("all",), (3, "read"), 2),
    ("failp", "nonl", cf(blk=20, th=1, b=1, q=1), ("p1", "all"), (2, "read"), 1),
]


def make_for(fname, conf, hist, fault):
    c = dict(conf)
    datas = [L.data_of(x) for x in FILES[fname]]
    return lambda: (lambda: history(datas, c, hist, fault))


def main():
    H.quiet_logging()
    import deepgnn.graph_engine._adl_reader  # noqa: F401
    H.scratch()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))["replay"]
        t = H.Tally()
        if d[0] == "sched":
            for name, fname, conf, hist, fault, bound in SCHED:
                if name == d[1]:
                    e = sched.Execution(d[2], bound, "delay").run(make_for(fname, conf, hist, fault)())
                    judge_one(e, t, fname, dict(conf), hist, fault, d)
        else:
            judge(L.tuplify(d), t)
        print(t.violations)
        H.cleanup()
        sys.exit(1 if t.violations else 0)
    H.run_cases(check, judge, cases(), case_timeout=100)
    for name, fname, conf, hist, fault, bound in SCHED:
        def j(e, t, script, name=name, fname=fname, conf=conf, hist=hist, fault=fault):
            judge_one(e, t, fname, dict(conf), hist, fault, ["sched", name, script])
        n0 = check.tally.evals
        H.explore_parallel(check, name, make_for(fname, conf, hist, fault), j, bound + (1 if H.THOROUGH else 0), "delay",
                           max_steps=80000)
        check.notes["schedules_" + name] = check.tally.evals - n0
    check.finish()


if __name__ == "__main__":
    main()
