"""Common part of all checks: evidence, violations, known findings, process pool."""
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

_t_real = time.time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PYSRC = os.path.join(REPO, "src", "python")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"

sys.dont_write_bytecode = True
if PYSRC not in sys.path:
    sys.path.insert(0, PYSRC)


def quiet_logging():
    import logging
    logging.disable(logging.CRITICAL)


_scratch = None


def scratch():
    """Scratch directory of this check, removed at exit (in memory if possible)."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid() and not os.path.isdir(_scratch[1]):
        old = os.environ.get("VP_SCRATCH")
        if old and os.path.isdir(old):
            _scratch = (os.getpid(), old)
            return old
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="vp_", dir=base))
    return _scratch[1]


def cleanup():
    if _scratch is not None and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)


class Tally:
    """What one case (or one worker) contributes; merged by the parent."""

    def __init__(self):
        self.evals = 0
        self.trans = 0
        self.states = set()
        self.violations = []     # (key, text, replay)
        self.samples = []
        self.extra = {}
        self.capped = False

    def state(self, *obj):
        self.states.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    def violation(self, key, text, replay=None):
        if len(self.violations) < 20 or all(k != key for k, _, _ in self.violations):
            self.violations.append((key, text, replay))

    def sample(self, obj, n=3):
        if len(self.samples) < n:
            self.samples.append(obj)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def merge(self, o):
        self.evals += o.evals
        self.trans += o.trans
        self.states |= o.states
        self.violations += o.violations
        for x in o.samples:
            self.sample(x)
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        self.capped = self.capped or o.capped


class Check:
    def __init__(self, prop, level="model_checking", rule="", exhaustive=True, assumptions=()):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.exhaustive = exhaustive
        self.assumptions = list(assumptions)
        self.t0 = float(os.environ.get("VP_T0") or _t_real())
        self.tally = Tally()
        self.known = self._load_known()
        self.known_hit = {}
        self.bad = []
        self.notes = {}

    def _load_known(self):
        out = {}
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith("known: property=%s " % self.prop):
                    rest = line.split(" ", 2)[2]
                    assert rest.startswith("key="), line
                    key, _, text = rest[4:].partition(" ")
                    out[key] = text
        return out

    def merge(self, t):
        self.tally.merge(t)

    def finish(self):
        wall = _t_real() - self.t0
        t = self.tally
        for key, text, replay in t.violations:
            if key in self.known:
                self.known_hit[key] = self.known_hit.get(key, 0) + 1
            else:
                self.bad.append((key, text, replay))
        for key in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
        paths = []
        seen = set()
        if self.bad:
            d = os.path.join(VERIF, "replay", self.prop)
            os.makedirs(d, exist_ok=True)
            for key, text, replay in self.bad:
                if key in seen or len(paths) >= 10:
                    continue
                seen.add(key)
                p = os.path.join(d, "%s.json" % hashlib.sha1(key.encode()).hexdigest()[:10])
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "key": key, "what": text, "replay": replay,
                               "how": "cd /verif && /opt/venv/bin/python checks/%s.py --replay %s" % (self.prop, p)},
                              f, indent=1, default=repr)
                paths.append((p, key, text))
        cov = {"evaluations": t.evals, "distinct_nontrivial": len(t.states), "rule": self.rule,
               "samples": t.samples[:5] or ["none"], "exhaustive": bool(self.exhaustive and not t.capped)}
        if self.level == "model_checking":
            cov["states"] = len(t.states)
            cov["transitions"] = t.trans
            cov["traces_validated_against_impl"] = t.evals
            del cov["evaluations"], cov["distinct_nontrivial"]
        cov.update({k: v for k, v in sorted(t.extra.items())})
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(wall, 3), "violations": len(seen)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print("%s: %d executions, %d distinct, %d steps, %.1fs %s" % (
            self.prop, t.evals, len(t.states), t.trans, wall, json.dumps(t.extra)))
        cleanup()
        if paths:
            for p, key, text in paths:
                print("  [%s] %s" % (key, text[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, paths[0][0]))
            sys.stdout.flush()
            os._exit(1)
        if t.evals == 0:
            print("nothing was explored")
            sys.stdout.flush()
            os._exit(3)
        sys.stdout.flush()
        os._exit(0)


def rotate(cases):
    """Visit order depends on the seed; the set does not."""
    cases = list(cases)
    if cases:
        k = (SEED * 7919) % len(cases)
        cases = cases[k:] + cases[:k]
    return cases


def _rd(fd, n):
    buf = b""
    while len(buf) < n:
        b = os.read(fd, n - len(buf))
        if not b:
            return None
        buf += b
    return buf


def run_cases(check, fn, cases, procs=None, stop_after=6, case_timeout=None, init=None, chunk=None, crash_key=None, crash_info=None):
    """Run fn(case, tally) for every case in forked workers; merge tallies into check.

    A worker that dies or overruns case_timeout on a case is a violation with key crash/timeout.
    """
    cases = rotate(cases)
    procs = procs or min(8, os.cpu_count() or 1)
    if not cases:
        return
    if chunk is None:
        chunk = max(1, min(200, len(cases) // (procs * 8) or 1))
    blocks = [(i, min(i + chunk, len(cases))) for i in range(0, len(cases), chunk)]
    blocks.reverse()
    workers = {}

    def spawn():
        pr, pw = os.pipe()     # parent -> child
        cr, cw = os.pipe()     # child -> parent
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(pw)
                os.close(cr)
                for w in workers.values():
                    for fd in (w["w"], w["r"]):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                if init:
                    init()
                while True:
                    h = _rd(pr, 16)
                    if h is None:
                        break
                    a, b = int.from_bytes(h[:8], "little"), int.from_bytes(h[8:], "little")
                    tl = Tally()
                    for i in range(a, b):
                        os.write(cw, b"P" + i.to_bytes(8, "little"))
                        try:
                            fn(cases[i], tl)
                        except Exception as e:
                            tl.violation("harness:" + type(e).__name__,
                                         "case %r: unexpected %s" % (cases[i], traceback.format_exc(limit=-6)),
                                         cases[i])
                    data = pickle.dumps(tl)
                    msg = b"T" + len(data).to_bytes(8, "little") + data
                    view = memoryview(msg)
                    while view:
                        n = os.write(cw, view)
                        view = view[n:]
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                os._exit(code)
        os.close(pr)
        os.close(cw)
        workers[pid] = {"w": pw, "r": cr, "cur": None, "blk": None, "t": _t_real()}
        return pid

    def feed(pid):
        w = workers[pid]
        if blocks and not stop[0]:
            w["blk"] = blocks.pop()
            w["cur"] = None
            w["t"] = _t_real()
            a, b = w["blk"]
            os.write(w["w"], a.to_bytes(8, "little") + b.to_bytes(8, "little"))
            return True
        os.close(w["w"])
        w["w"] = -1
        return False

    def end(pid):
        w = workers.pop(pid)
        if w["w"] >= 0:
            os.close(w["w"])
        os.close(w["r"])
        try:
            return os.waitpid(pid, 0)[1]
        except ChildProcessError:
            return 0

    stop = [False]
    for _ in range(min(procs, len(blocks))):
        feed(spawn())
    while workers:
        fds = {w["r"]: p for p, w in workers.items()}
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        now = _t_real()
        for fd in ready:
            pid = fds[fd]
            w = workers[pid]
            k = os.read(fd, 1)
            if k == b"P":
                w["cur"] = int.from_bytes(_rd(fd, 8), "little")
                w["t"] = now
                continue
            if k == b"T":
                n = int.from_bytes(_rd(fd, 8), "little")
                check.merge(pickle.loads(_rd(fd, n)))
                w["blk"] = None
                if sum(1 for k2, _, _ in check.tally.violations if k2 not in check.known) >= stop_after:
                    stop[0] = True
                feed(pid)
                continue
            # end of file
            blk, cur = w["blk"], w["cur"]
            st = end(pid)
            if blk is not None:
                key = crash_key(cases[cur]) if crash_key and cur is not None else "crash"
                info = crash_info(pid) if crash_info else ""
                check.tally.violation(key, "process died (status %d%s) in case %r" % (
                    st, ": " + info if info else "", cases[cur] if cur is not None else None),
                    cases[cur] if cur is not None else None)
                check.tally.evals += 1
                if cur is not None and cur + 1 < blk[1]:
                    blocks.append((cur + 1, blk[1]))
                if cur is not None and cur > blk[0]:
                    pass
                if sum(1 for k2, _, _ in check.tally.violations if k2 not in check.known) >= stop_after * 3:
                    stop[0] = True
                if blocks and not stop[0]:
                    feed(spawn())
        if case_timeout:
            for pid in list(workers):
                w = workers[pid]
                if w["blk"] is not None and now - w["t"] > case_timeout:
                    os.kill(pid, signal.SIGKILL)
                    blk, cur = w["blk"], w["cur"]
                    end(pid)
                    check.tally.violation("timeout", "no end within %ss in case %r" % (
                        case_timeout, cases[cur] if cur is not None else None), cases[cur] if cur is not None else None)
                    check.tally.evals += 1
                    if cur is not None and cur + 1 < blk[1]:
                        blocks.append((cur + 1, blk[1]))
                    if sum(1 for k2, _, _ in check.tally.violations if k2 == "timeout") >= 3:
                        stop[0] = True
                    if blocks and not stop[0]:
                        feed(spawn())
    if stop[0]:
        check.tally.capped = True
    check.notes["cases"] = check.notes.get("cases", 0) + len(cases)


def explore_parallel(check, name, make, judge, bound, mode="preempt", procs=None, limit=None, **kw):
    """Explore all schedules of make() over a process pool.

    judge(execution, tally, script) records violations and states for one schedule.
    """
    import sched

    def replay_twice(script):
        a = sched.Execution(script, bound, mode, **kw).run(make())
        b = sched.Execution(script, bound, mode, **kw).run(make())
        if a.trace != b.trace:
            raise RuntimeError("nondeterministic replay in %s" % name)

    replay_twice([])
    first, subs = sched.roots(make, bound, mode, **kw)
    t = Tally()
    t.evals += 1
    t.trans += first.steps
    judge(first, t, [])
    check.merge(t)
    per = None if limit is None else max(1, limit // max(1, len(subs)))

    def one(case, tl):
        script, lo = case
        def news():
            return sum(1 for k2, _, _ in tl.violations if k2 not in check.known)
        nviol = news()

        def visit(e, s):
            tl.evals += 1
            tl.trans += e.steps
            judge(e, tl, s)
            return news() > nviol + 3
        st = sched.explore(make, bound, visit, mode, prefix=script, lo=lo, limit=per, **kw)
        if st.capped:
            tl.capped = True
    run_cases(check, one, subs, procs=procs, chunk=1)
