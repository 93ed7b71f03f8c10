"""S01: workers and servers of a job start and stop in step, whatever their relative speed."""
import argparse
import json
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sched  # noqa: E402
sched.install()
import harness as H  # noqa: E402

check = H.Check("S01", rule="one evaluation = one complete job (every worker starts its server and client, uses the graph, "
                "closes), under one schedule; distinct = different (job, order of starts, uses and stops)",
                assumptions=["a process stands for a managed thread with its own process id and its own copy of the "
                             "process object; schedules switch at file-system steps, at process starts and where a process waits",
                             "time is virtual: nothing times out merely because another worker is slow; a slow process is one that is "
                             "suspended for 5 seconds at any of its steps (start-up timeout: 30)",
                             "the native server and client are stand-ins that record when they start and stop"])
TIMEOUT = 30.0


class Boom(Exception):
    pass


# -- scheduling points at file-system steps ----------------------------------------------------
_root = [None]


def _yield(path):
    c = sched._cur()
    if c is not None and _root[0] is not None:
        try:
            p = os.fspath(path)
        except TypeError:
            return
        if isinstance(p, str) and p.startswith(_root[0]):
            c[0].point(c[1])


def _wrap(mod, name):
    real = getattr(mod, name)

    def f(path=".", *a, **k):
        _yield(path)
        return real(path, *a, **k)
    setattr(mod, name, f)


def install_fs():
    import builtins
    for n in ("stat", "lstat", "remove", "unlink", "scandir", "listdir", "rename", "replace", "mkdir", "open"):
        _wrap(os, n)
    _wrap(builtins, "open")


# -- stand-ins -----------------------------------------------------------------------------------
class World:
    """What the stand-ins saw in one execution."""

    def __init__(self, job):
        self.job = job
        self.servers = {}        # (run, index) -> (process, state)
        self.log = []
        self.bad = []
        self.run = 0
        self.lists = []

    def started(self, i, address):
        e, t = sched._cur()
        self.servers[(self.run, i)] = [t.group, True, address]
        self.log.append(("server", self.run, i))

    def alive(self, n):
        e, _ = sched._cur()
        out = []
        for i in range(n):
            s = self.servers.get((self.run, i))
            if s is None:
                out.append("server %d has not started" % i)
            elif not s[1] or s[0] in e.exited:
                out.append("server %d has stopped" % i)
        return out


W = [None]
RANK = {}


def patch():
    import deepgnn.graph_engine.snark.distributed as D

    def s_init(self, hostname, data_path, index, total_shards, *a, **k):
        w = W[0]
        if ("server", index) == w.job["fail"]:
            raise Boom("server %d can not start" % index)
        self.vp = index
        sched._sleep(w.job["slow"].get(index, 0))
        w.started(index, hostname)

    def s_reset(self):
        W[0].servers[(W[0].run, self.vp)][1] = False
        W[0].log.append(("server stop", self.vp))

    def c_init(self, servers, *a, **k):
        w = W[0]
        self.vp = sched._cur()[1].group
        for x in w.alive(w.job["n"]):
            w.bad.append(("early", "a client starts although %s" % x))
        if len(servers) != w.job["n"]:
            w.bad.append(("list", "a client of %d servers gets the addresses %r" % (w.job["n"], servers)))
        if ("client", RANK.get(self.vp)) == w.job["fail"]:
            raise Boom("client can not start")
        w.lists.append(tuple(servers))
        w.log.append(("client", RANK.get(self.vp)))

    def c_reset(self):
        w = W[0]
        for x in w.alive(w.job["n"]):
            w.bad.append(("late", "a client is still open although %s" % x))
        w.log.append(("client stop", RANK.get(self.vp)))
    D.Server.__init__, D.Server.reset = s_init, s_reset
    D.Client.__init__, D.Client.reset = c_init, c_reset


def worker(job, k, root, out):
    """One worker process of the job."""
    from deepgnn.graph_engine.backends.snark.client import SnarkDistributedBackend
    from deepgnn.graph_engine.backends.options import BackendOptions
    import multiprocessing
    del multiprocessing
    RANK[os.getpid()] = k
    n = job["n"]
    ns = argparse.Namespace(
        data_dir=root, model_dir=root, sync_dir=os.path.join(root, "s") if job["kind"] != "find" else "",
        servers=["h%d:1" % i for i in range(n)] if job["kind"] != "find" else [],
        server_idx=k if k < n else -1, client_rank=k + job["rank"], num_ge=n, ge_start_timeout=TIMEOUT,
        converter=None)
    res = []
    try:
        b = SnarkDistributedBackend(BackendOptions(ns))
        try:
            if k not in job["idle"]:
                g = b.graph
                if g is not b.graph:
                    res.append("another client")
                sched._sleep(job["work"].get(k, 0))
                for x in W[0].alive(n):
                    W[0].bad.append(("late", "a client is in use although %s" % x))
        except (TimeoutError, Boom) as e:
            res.append(type(e).__name__)
        finally:
            b.close()
        res.append("closed")
    except sched.Abort:
        raise
    except Exception as e:
        res.append("%s: %s" % (type(e).__name__, str(e)[:200]))
    out[k] = res


def scenario(job):
    import multiprocessing as mp
    root = os.path.join(H.scratch(), "job%d%s" % (sched._real_getpid(), job["folder"]))
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    RANK.clear()
    W[0] = World(job)
    results, left = [], []
    try:
        for r, size in enumerate(job["runs"]):
            W[0].run = r
            j = dict(job, n=size[0])
            W[0].job = j
            W[0].lists = []
            out = {}
            ps = [mp.Process(target=worker, args=(j, k, root, out)) for k in range(size[1])]
            _root[0] = root
            for p in ps:
                p.start()
            for p in ps:
                p.join()
            _root[0] = None
            results.append([out.get(k) for k in range(size[1])])
            left.append(sorted(f for d, _, fs in os.walk(root) for f in fs))
            if len(set(W[0].lists)) > 1:
                W[0].bad.append(("lists", "clients use different address lists %r" % (W[0].lists,)))
    finally:
        _root[0] = None
    return results, left, list(W[0].bad), list(W[0].log)


def judge(e, t, job, rep):
    what = "job %r" % {k: v for k, v in job.items() if v not in ((), {}, None, "", 0)}
    tag = job.get("tag", "")
    if e.outcome:
        t.violation("hang", "%s: %s, waiting: %s" % (what, e.outcome, e.blocked_info), rep)
        return
    if e.error is not None:
        t.violation("error", "%s: %r" % (what, e.error), rep)
        return
    results, left, bad, log = e.result
    t.state(sorted(job.items(), key=repr), log, str(results))
    t.sample({"job": what, "events": [" ".join(map(str, x)) for x in log][:20]})
    for key, text in bad[:1]:
        t.violation(tag + key, "%s: %s; events %r" % (what, text, log), rep)
    for r, res in enumerate(results):
        for k, x in enumerate(res):
            ok = [["closed"]]
            if job["fail"] and job["fail"][0] == "server":
                ok = [["TimeoutError", "closed"]] if k not in job["idle"] else ok
            elif job["fail"] and job["fail"][1] == k and k not in job["idle"]:
                ok = [["Boom", "closed"]]
            if job["runs"][r][1] < job["runs"][r][0] and k not in job["idle"]:
                # a worker is missing: the others give up in time and leave nothing behind
                ok = [["TimeoutError", "closed"]] if job["kind"] == "given" else [["TimeoutError"]]
                x = [y.split(":")[0] for y in x or []]
            if x not in ok:
                t.violation(tag + "result", "%s: worker %d of run %d ends with %r, should be %r; events %r" % (
                    what, k, r, x, ok[0], log), rep)
                return
        if left[r]:
            t.violation("left", "%s: after run %d the folder still holds %r" % (what, r, left[r]), rep)
            return


def J(kind, n, workers=None, runs=None, idle=(), fail=None, slow=None, work=None, tag="", rank=0, folder=""):
    return dict(folder=folder, kind=kind, n=n, runs=tuple(runs or ((n, workers or n),)), idle=tuple(idle), fail=fail,
                slow=dict(slow or {}), work=dict(work or {}), tag=tag, rank=rank)


def jobs():
    """(job, mode, bound)"""
    two = [J("given", 2), J("find", 2), J("given", 2, runs=((2, 2), (2, 2))), J("find", 2, runs=((2, 2), (1, 1))),
           J("given", 3)]
    small = [J("given", 1), J("find", 1), J("given", 1, idle=(0,)), J("given", 1, fail=("server", 0)),
             J("given", 1, fail=("client", 0)), J("find", 2, runs=((2, 1),))]
    more = [J("given", 2, idle=i, tag="unregistered:") for i in ((0,), (1,), (0, 1))]
    more += [J("find", 2, idle=(0,), tag="unregistered:"), J("given", 1, workers=2, tag="unregistered:"),
             J("given", 1, workers=3, tag="unregistered:"), J("given", 2, workers=3, tag="unregistered:")]
    more += [J("given", 2, fail=("server", i)) for i in (0, 1)] + [J("given", 2, fail=("client", i)) for i in (0, 1)]
    more += [J("find", 2, fail=("server", 1)), J("given", 2, runs=((2, 2), (1, 1))), J("find", 1, runs=((1, 1), (2, 2))),
             J("given", 2, runs=((1, 1), (2, 2), (1, 1)))]
    more += [J("given", 2, runs=((2, 1),)), J("find", 2, runs=((2, 1),)), J("find", 3, runs=((3, 2),)),
             J("given", 2, runs=((2, 1), (2, 2))), J("find", 2, runs=((2, 1), (2, 2)))]
    more += [J("given", 2, slow={0: 5}), J("given", 2, work={0: 20}), J("given", 2, slow={1: 5}, work={1: 10}),
             J("find", 2, slow={0: 5}, work={1: 10}), J("given", 3, slow={1: 3}, work={2: 7}), J("find", 3)]
    # ranks of one and two digits
    more += [J("given", 2, rank=9), J("given", 2, rank=9, work={1: 10}), J("given", 2, rank=99, work={0: 10})]
    # folders whose names have a meaning in patterns
    named = [J(kind, 2, work={0: 10}, folder=f) for kind in ("given", "find") for f in ("[1]", "*", "?[", " {}")]
    large = [J("given", 11), J("find", 11), J("given", 11, work={0: 10, 10: 20}), J("find", 11, work={10: 10})]
    k = 1 if H.THOROUGH else 0
    out = [(j, "freeze", 2 + k) for j in two + small] + [(j, "freeze", 1 + k) for j in more]
    out += [(j, "delay", 2 + k) for j in small] + [(j, "delay", 1 + k) for j in two + more]
    out += [(j, "delay", 1) for j in named] + [(j, "delay", k) for j in large]
    return out


def main():
    H.quiet_logging()
    import deepgnn.graph_engine.backends.snark.client  # noqa: F401
    import deepgnn.graph_engine.backends.options  # noqa: F401
    patch()
    install_fs()
    H.scratch()
    opts = dict(max_steps=60000, time_choice=False, granularity="process")
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))["replay"]
        d[0].update(slow={int(k): v for k, v in d[0]["slow"].items()}, work={int(k): v for k, v in d[0]["work"].items()},
                    fail=tuple(d[0]["fail"]) if d[0]["fail"] else None)
        sched.Execution(**opts).run(lambda: scenario(J("given", 1)))
        t = H.Tally()
        e = sched.Execution(d[2], d[1], d[3], **opts).run(lambda: scenario(d[0]))
        judge(e, t, d[0], d)
        print(t.violations)
        H.cleanup()
        sys.exit(1 if t.violations else 0)
    for j in (J("given", 2), J("find", 2), J("given", 2, fail=("server", 0))):
        sched.Execution(**opts).run(lambda: scenario(j))
    for k, (job, mode, bound) in enumerate(jobs()):
        def jd(e, t, script, job=job, bound=bound, mode=mode):
            judge(e, t, job, [job, bound, script, mode])
        n0 = check.tally.evals
        H.explore_parallel(check, "job%d" % k, lambda job=job: (lambda: scenario(job)), jd, bound, mode, **opts)
        check.notes["schedules_%d_%s" % (k, mode)] = check.tally.evals - n0
    check.finish()


if __name__ == "__main__":
    main()
