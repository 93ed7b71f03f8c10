"""S02: every process of a job derives the same server numbers, addresses and data shards."""
import argparse
import contextlib
import io
import itertools
import json
import os
import runpy
import shutil
import socket
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sched  # noqa: E402
sched.install()
import harness as H  # noqa: E402

check = H.Check("S02", rule="one evaluation = one complete job with one cluster layout, one order of directory listings and "
                "one partition count (or one command line of the stand-alone server, one local backend); distinct = "
                "different (layout kind, servers with their addresses and partitions, client lists, outcome)",
                assumptions=["each worker is a managed process with its own environment variables and its own host address",
                             "the native server and client are stand-ins that record their arguments; a second server on an "
                             "address that is in use fails"])

RANK = {}
ENV = {}
JOB = [None]
_environ = os.environ


def rank():
    """Worker that the current process belongs to (itself or an ancestor)."""
    c = sched._cur()
    if c is None:
        return None
    pid = c[1].group
    for _ in range(5):
        if pid in RANK:
            return RANK[pid]
        pid = next((p for p, ch in c[0].children.items() if any(x.pid == pid for x in ch)), None)
    return None


class Env(dict):
    """os.environ with additions per worker."""

    def _d(self):
        d = dict(_environ)
        d.update(ENV.get(rank(), {}))
        return d

    def __getitem__(self, k):
        return self._d()[k]

    def get(self, k, default=None):
        return self._d().get(k, default)

    def __contains__(self, k):
        return k in self._d()

    def __iter__(self):
        return iter(self._d())

    def keys(self):
        return self._d().keys()

    def items(self):
        return self._d().items()

    def copy(self):
        return self._d()

    def __len__(self):
        return len(self._d())


class Sock:
    """Socket of a worker: knows the worker's own address only."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def connect(self, addr):
        pass

    def bind(self, addr):
        pass

    def setsockopt(self, *a):
        pass

    def close(self):
        pass

    def listen(self, *a):
        pass

    def getsockname(self):
        r = rank()
        return ("10.0.0.%d" % (JOB[0]["hosts"][r] + 1), 5000 + r)


_socket = socket.socket


class _Dir:
    def __init__(self, entries):
        self.e = iter(entries)

    def __iter__(self):
        return self.e

    def __next__(self):
        return next(self.e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def reorder(items, key):
    j = JOB[0]
    if j is None or rank() is None:
        return items
    items = sorted(items, key=key)
    if j["order"] == "each":        # every process sees another order
        k = rank() % max(1, len(items))
        return items[k:] + items[:k]
    if j["order"] == "reverse":
        return items[::-1]
    n = len(items)
    p = list(itertools.permutations(range(n)))[j["order"]] if n == j["width"] else range(n)
    return [items[i] for i in p]


def patch():
    import deepgnn.graph_engine.snark.client as C
    import deepgnn.graph_engine.snark.server as S
    os.environ = Env()
    real_scandir, real_listdir = os.scandir, os.listdir

    class Socket(_socket):
        def __new__(cls, *a, **k):
            return Sock() if rank() is not None else _socket(*a, **k)
    socket.socket = Socket

    def scandir(path="."):
        if rank() is None:
            return real_scandir(path)
        with real_scandir(path) as it:
            return _Dir(reorder(list(it), lambda x: x.name))

    def listdir(path="."):
        return reorder(real_listdir(path), str)
    os.scandir, os.listdir = scandir, listdir

    class Meta:
        node_count_per_type = edge_count_per_type = []

    def s_init(self, meta_path, partitions, hostname, *a, **k):
        ids = sorted(p if isinstance(p, int) else p[1] for p in partitions)
        paths = sorted({meta_path if isinstance(p, int) else p[0] for p in partitions} | {meta_path})
        self.vp = hostname
        for s in SEEN["servers"]:
            if s[1] == hostname and s[4]:
                SEEN["conflict"] = True
                raise RuntimeError("address %s is in use" % hostname)
        self.rec = [rank(), hostname, tuple(ids), paths, True]
        SEEN["servers"].append(self.rec)

    def s_reset(self):
        self.rec[4] = False

    def g_init(self, servers, *a, **k):
        self.meta = Meta()
        assert len(servers) > 0         # as the real one
        SEEN["clients"].append((rank(), tuple(servers)))

    def m_init(self, meta_path, partitions=None, *a, **k):
        self.meta = Meta()
        SEEN["local"].append((meta_path, [(meta_path, p) if isinstance(p, int) else tuple(p) for p in partitions or [0]]))
    S.Server.__init__, S.Server.reset = s_init, s_reset
    C.DistributedGraph.__init__, C.MemoryGraph.__init__ = g_init, m_init
    C.MemoryGraph.reset = lambda self: None
    C.DistributedGraph.reset = lambda self: None


SEEN = {}


def worker(job, k, root, out):
    from deepgnn.graph_engine.backends.snark.client import SnarkDistributedBackend
    from deepgnn.graph_engine.backends.options import BackendOptions
    RANK[os.getpid()] = k
    ENV[k] = job["env"][k]
    ns = argparse.Namespace(data_dir=os.path.join(root, "data"), model_dir=os.path.join(root, "model"),
                            sync_dir=os.path.join(root, "s") if job["servers"] else "", servers=list(job["servers"]),
                            server_idx=None, client_rank=None, num_ge=job["num_ge"], ge_start_timeout=20.0, converter=None)
    extra = {a: (list(v) if isinstance(v, (list, tuple)) else v) for a, v in job["args"][k].items()}
    for a, v in extra.items():
        setattr(ns, a, v)
    res = []
    try:
        b = SnarkDistributedBackend(BackendOptions(ns))
        try:
            b.graph
            # stay until everybody is connected (early leavers are the subject of S01)
            SEEN["up"].add(k)
            for _ in range(60):
                if len(SEEN["up"]) == len(job["hosts"]):
                    break
                sched._sleep(1)
        except TimeoutError:
            res.append("TimeoutError")
        finally:
            b.close()
        for a, v in job["args"][k].items():
            if isinstance(v, (list, tuple)) and list(getattr(ns, a)) != list(v):
                SEEN["changed"].append("argument %s of worker %d turns from %r into %r" % (a, k, v, getattr(ns, a)))
        res.append("closed")
    except sched.Abort:
        raise
    except BaseException as e:
        res.append("%s: %s" % (type(e).__name__, str(e)[:100]))
    SEEN["up"].add(k)
    out[k] = res


def scenario(job):
    import multiprocessing as mp
    root = os.path.join(H.scratch(), "job%d" % sched._real_getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "data"))
    os.makedirs(os.path.join(root, "model"))
    with open(os.path.join(root, "data", "meta.json"), "w") as f:
        json.dump(dict(binary_data_version="v2", node_count=1, edge_count=1, node_type_num=1, edge_type_num=1,
                       node_feature_num=0, edge_feature_num=0, n_partitions=job["parts"],
                       partitions={str(i): dict(node_weight=[1.0], edge_weight=[1.0]) for i in range(job["parts"])},
                       node_count_per_type=[1], edge_count_per_type=[1], watermark=-1), f)
    RANK.clear()
    ENV.clear()
    JOB[0] = job
    SEEN.clear()
    SEEN.update(servers=[], clients=[], local=[], changed=[], conflict=False, up=set())
    out = {}
    try:
        ps = [mp.Process(target=worker, args=(job, k, root, out)) for k in range(len(job["hosts"]))]
        for p in ps:
            p.start()
        for p in ps:
            p.join()
    finally:
        JOB[0] = None
    return {"out": [out.get(k) for k in range(len(job["hosts"]))], "data": os.path.join(root, "data"), **SEEN}


def run_job(job, t):
    e = sched.Execution(max_steps=60000, time_choice=False, granularity="process").run(lambda: scenario(job))
    t.evals += 1
    t.trans += e.steps if isinstance(getattr(e, "steps", 0), int) else 0
    what = "layout %s: workers on hosts %r, %s, %d partitions, listing order %r" % (
        job["kind"], job["hosts"], "servers %r" % (job["servers"],) if job["servers"] else "servers to be found",
        job["parts"], job["order"])
    if e.outcome or e.error is not None:
        t.violation("hang" if e.outcome else "error", "%s: %s %r %s" % (what, e.outcome, e.error, e.blocked_info), job)
        return
    r = e.result
    ok = all(x == ["closed"] for x in r["out"])
    sv, cl = r["servers"], r["clients"]
    t.state(job["kind"], sorted(map(repr, sv)), sorted(map(repr, cl)), r["out"])
    t.sample({"layout": what, "servers": [list(map(str, s[:3])) for s in sv], "clients": [list(map(str, c)) for c in cl][:2]})
    if r["changed"]:
        t.violation("changed", "%s: %s" % (what, r["changed"][0]), job)
    if not ok:
        t.count("refused")
        if job["must"]:
            t.violation("refused", "%s: the job fails: %r" % (what, r["out"]), job)
        return
    t.count("accepted")
    hosts = [s[1] for s in sv]
    if len(set(hosts)) != len(hosts):
        t.violation("address", "%s: two servers on the same address: %r" % (what, sorted(hosts)), job)
    parts = sorted(p for s in sv for p in s[2])
    if parts != list(range(job["parts"])):
        t.violation("cover", "%s: the servers load the partitions %r" % (what, [(s[1], s[2]) for s in sv]), job)
    if any(s[3] != [r["data"]] for s in sv):
        t.violation("data", "%s: data is loaded from %r" % (what, [s[3] for s in sv]), job)
    lists = {c[1] for c in cl}
    if len(cl) != len(job["hosts"]):
        t.violation("clients", "%s: clients were created by %r" % (what, sorted(cl)), job)
    elif len(lists) != 1:
        t.violation("lists", "%s: the clients use different lists: %r" % (what, sorted(cl)), job)
    elif sorted(next(iter(lists))) != sorted(hosts):
        t.violation("reach", "%s: the clients use the list %r, servers are at %r" % (what, next(iter(lists)), sorted(hosts)), job)
    if job["servers"]:
        if lists and lists != {tuple(job["servers"])}:
            t.violation("given", "%s: the clients use %r" % (what, lists), job)
        if job["must"] and job.get("own"):
            for s in sv:
                if job["own"].get(s[0]) != s[1]:
                    t.violation("own", "%s: worker %d starts a server on %s, should be %s" % (what, s[0], s[1], job["own"].get(s[0])), job)
    else:
        for s in sv:
            mine = "10.0.0.%d:%d" % (job["hosts"][s[0]] + 1, 5000 + s[0])
            if s[1] != mine:
                t.violation("own", "%s: worker %d at %s starts a server on %s" % (what, s[0], mine, s[1]), job)
    if job["must"] and job["kind"] != "args":
        per = {}
        for s in sv:
            per.setdefault(job["hosts"][s[0]], []).append(s[0])
        if sorted(per) != sorted(set(job["hosts"])) or any(len(v) != 1 for v in per.values()):
            t.violation("perhost", "%s: servers per host %r" % (what, per), job)


# -- layouts ---------------------------------------------------------------------------------------
def L(kind, hosts, env=None, args=None, servers=(), parts=3, order=0, width=0, must=True, num_ge=0, own=None):
    n = len(hosts)
    return dict(kind=kind, hosts=list(hosts), env=env or [{}] * n, args=args or [{}] * n, servers=list(servers), parts=parts,
                order=order, width=width, must=must, num_ge=num_ge, own=own)


def addr(n):
    return ["srv%d:%d" % (i, 7000 + i) for i in range(n)]


def env_job(kind, sizes, **kw):
    names = {"ddp": ("LOCAL_RANK", "LOCAL_WORLD_SIZE", "RANK", "WORLD_SIZE"),
             "mpi": tuple("OMPI_COMM_WORLD_" + x for x in ("LOCAL_RANK", "LOCAL_SIZE", "RANK", "SIZE")),
             "horovod": tuple("HOROVOD_" + x for x in ("LOCAL_RANK", "LOCAL_SIZE", "RANK", "SIZE"))}[kind]
    hosts, env = [], []
    for h, s in enumerate(sizes):
        for i in range(s):
            env.append(dict(zip(names, (str(i), str(s), str(len(hosts)), str(sum(sizes))))))
            hosts.append(h)
    kw.setdefault("must", len(set(sizes)) == 1)
    if kw.get("servers"):
        first = [hosts.index(h) for h in range(len(sizes))]
        kw["own"] = {r: kw["servers"][i] for i, r in enumerate(first) if i < len(kw["servers"])}
    return L(kind, hosts, env, **kw)


HOSTS = ("node10", "node2", "10.0.0.3", "[fe80::1]")


def tf_job(kind, hosts, **kw):
    ports, names = {}, []
    for h in hosts:
        ports[h] = ports.get(h, 2230) - 7
        names.append("%s:%d" % (HOSTS[h], ports[h]))
    n = len(hosts)
    if kind == "tf_args":
        return L(kind, hosts, None, [dict(task_index=i, worker_hosts=names) for i in range(n)], **kw)
    return L(kind, hosts, [{"TF_CONFIG": json.dumps({"cluster": {"worker": names, "ps": ["p:1"]},
                                                     "task": {"type": "worker", "index": i}})} for i in range(n)], **kw)


def args_job(idx, **kw):
    n = len(idx)
    own = {r: kw["servers"][i] for r, i in enumerate(idx) if i >= 0 and i < len(kw["servers"])} if kw.get("servers") else None
    good = sorted(i for i in idx if i >= 0) == list(range(sum(i >= 0 for i in idx)))
    if kw.get("servers"):
        good = good and sum(i >= 0 for i in idx) == len(kw["servers"])
    else:
        kw["num_ge"] = kw.get("num_ge", n)
    kw.setdefault("must", good and any(i >= 0 for i in idx))
    return L("args", list(range(n)), None, [dict(server_idx=i, client_rank=r) for r, i in enumerate(idx)], own=own, **kw)


def jobs():
    out = []
    # ranks and sizes in environment variables
    for kind in ("ddp", "mpi", "horovod"):
        for n in (1, 2, 3, 4):
            for sizes in itertools.product((1, 2, 3), repeat=n):
                w = sum(sizes)
                if n == 4 and (len(set(sizes)) > 1 or sizes[0] > 2):
                    continue
                for parts in (3, 5) if len(set(sizes)) == 1 else (3,):
                    orders = range(1, min(6, 1)) if w > 3 else range(len(list(itertools.permutations(range(w)))))
                    for o in list(orders) + ["each", "reverse"]:
                        out.append(env_job(kind, sizes, parts=parts, order=o, width=w))
                for s in range(max(1, n - 1), n + 2):
                    out.append(env_job(kind, sizes, servers=addr(s), must=s == n and len(set(sizes)) == 1))
        out.append(env_job(kind, (1,) * 12, parts=13, order="reverse"))
        out.append(env_job(kind, (3,) * 4, parts=13, order="each"))
    # worker lists of tensorflow
    for kind in ("tf_args", "tf_config"):
        for n in (1, 2, 3, 4):
            for hosts in itertools.product(range(3), repeat=n):
                for o in (("each", "reverse") if n > 3 else range(len(list(itertools.permutations(range(n)))))):
                    out.append(tf_job(kind, hosts, parts=4, order=o, width=n))
                s = len(set(hosts))
                out.append(tf_job(kind, hosts, servers=addr(s)))
                out.append(tf_job(kind, hosts, servers=addr(s + 1), must=False))
        out.append(tf_job(kind, (3, 0, 3, 1), order="each"))
        out.append(tf_job(kind, tuple(i % 4 for i in range(12)), order="reverse", parts=13))
    # numbers given on the command line
    for n in (1, 2, 3):
        for idx in itertools.product(range(-1, n + 1), repeat=n):
            for s in range(1, n + 1):
                out.append(args_job(idx, servers=addr(s), parts=4))
            for o in ["each"] + list(range(6 if n == 3 else n)):
                out.append(args_job(idx, parts=4, order=o, width=n))
                if o == "each":
                    break_at = sum(i >= 0 for i in idx)
                    if break_at != n and break_at > 0:
                        # fewer servers than workers were announced
                        out.append(args_job(idx, parts=4, order=o, num_ge=break_at, must=False))
    for idx in itertools.permutations(range(4)):
        out.append(args_job(idx, parts=6, order="reverse"))
        out.append(args_job(idx, parts=6, servers=addr(4)))
    out.append(args_job(tuple((i * 5) % 12 for i in range(12)), parts=13, order="reverse"))
    # the number of servers comes from the metadata
    for n in (1, 2, 3, 4):
        out.append(args_job(tuple(range(n)), parts=n, num_ge=0))
    # all numbers of partitions and servers
    for n in range(1, 6):
        for parts in range(1, 14):
            out.append(args_job(tuple(range(n)), parts=parts, servers=addr(n)))
    # no layout at all
    out.append(L("none", [0], must=False))
    return out


def cli(case, t):
    """Stand-alone servers started from the command line."""
    n, parts = case
    t.evals += n
    got = []
    for i in range(n):
        SEEN.clear()
        SEEN.update(servers=[], clients=[], local=[], changed=[], conflict=False, up=set())
        real, argv = subprocess.check_call, sys.argv
        subprocess.check_call = lambda *a, **k: 0
        sys.argv = ["server", "--port", str(9000 + i), "--data_dir", "/d"]
        sys.argv += ["--server_group", "%d,%d,%d" % (i, n, parts)] if n > 0 else []
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                runpy.run_module("deepgnn.graph_engine.snark.server", run_name="__main__")
        except SystemExit as e:
            t.violation("cli", "server %d of %d, %d partitions: exit %r" % (i, n, parts, e.code), ["cli", case])
            return
        finally:
            subprocess.check_call, sys.argv = real, argv
        s = SEEN["servers"]
        if len(s) != 1 or not s[0][1].endswith(":%d" % (9000 + i)) or s[0][3] != ["/d"]:
            t.violation("cli", "server %d of %d: started %r" % (i, n, s), ["cli", case])
            return
        got += s[0][2]
    t.state("cli", case, got)
    if sorted(got) != list(range(parts)):
        t.violation("cli:cover", "%d stand-alone servers, %d partitions: loaded %r" % (n, parts, sorted(got)), ["cli", case])


def cli_list(case, t):
    SEEN.clear()
    SEEN.update(servers=[], clients=[], local=[], changed=[], conflict=False, up=set())
    t.evals += 1
    real, argv = subprocess.check_call, sys.argv
    subprocess.check_call = lambda *a, **k: 0
    sys.argv = ["server", "--port", "9000", "--data_dir", "/d", "--partitions", ",".join(map(str, case))]
    try:
        runpy.run_module("deepgnn.graph_engine.snark.server", run_name="__main__")
    finally:
        subprocess.check_call, sys.argv = real, argv
    s = SEEN["servers"]
    t.state("list", case, repr(s))
    if len(s) != 1 or s[0][2] != tuple(sorted(case)):
        t.violation("cli:list", "stand-alone server for partitions %r loads %r" % (case, s), ["cli_list", case])


def local(case, t):
    """Local backend: loads exactly the partitions asked for."""
    from deepgnn.graph_engine.backends.snark.client import SnarkLocalBackend
    from deepgnn.graph_engine.backends.options import BackendOptions
    SEEN.clear()
    SEEN.update(servers=[], clients=[], local=[], changed=[], conflict=False, up=set())
    t.evals += 1
    SnarkLocalBackend(BackendOptions(argparse.Namespace(data_dir="/d", partitions=list(case), converter=None))).graph
    want = [("/d", p) for p in (case or [0])]
    t.state("local", case)
    if SEEN["local"] != [("/d", want)]:
        t.violation("local", "local graph of partitions %r loads %r" % (case, SEEN["local"]), ["local", case])


def one(case, t):
    kind, arg = case
    {"job": run_job, "cli": cli, "cli_list": cli_list, "local": local}[kind](arg, t)


def main():
    H.quiet_logging()
    import deepgnn.graph_engine.backends.snark.client  # noqa: F401
    import deepgnn.graph_engine.backends.options  # noqa: F401
    patch()
    H.scratch()
    for j in (args_job((0, 1)), args_job((0, 1), servers=addr(2))):
        run_job(j, H.Tally())
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))["replay"]
        if isinstance(d, dict):
            if d["own"]:
                d["own"] = {int(k): v for k, v in d["own"].items()}
            d = ["job", d]
        t = H.Tally()
        one(d, t)
        print(t.violations)
        H.cleanup()
        sys.exit(1 if t.violations else 0)
    cases = [("job", j) for j in jobs()]
    cases += [("cli", (n, p)) for n in range(1, 6) for p in range(1, 14)]
    subsets = [s for n in range(0, 4) for s in itertools.permutations(range(5), n)]
    cases += [("local", s) for s in subsets] + [("cli_list", s) for s in subsets if s]
    H.run_cases(check, one, cases, case_timeout=60)
    check.finish()


if __name__ == "__main__":
    main()
