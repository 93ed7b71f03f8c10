"""T01: training can be killed at any moment and goes on where it stopped; evaluation and inference see every batch."""
import argparse
import itertools
import json
import os
import pickle
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import sched  # noqa: E402

sched.install(mp=False)
import threading  # noqa: E402
import torchlib as T  # noqa: E402

T.install()
import numpy as np  # noqa: E402

check = H.Check("T01", rule="one evaluation = one run of a trainer from one content of its directory to its end, looked at before every change of the directory; "
                "distinct = different (options, content of the directory)",
                assumptions=["torch and horovod are stand-ins that keep the history of updates in place of numbers",
                             "a kill loses what was not yet written and nothing else",
                             "the optimizer has no state of its own"])

BS = 2


def model_class():
    from deepgnn.pytorch.modeling.base_model import BaseModel
    from deepgnn.pytorch.common.metrics import BaseMetric

    class Metric(BaseMetric):
        def compute(self, scores, labels):
            return T.Tensor(float(np.sum(scores.v * 100) + np.sum(labels.v)))

    class Model(BaseModel):
        def __init__(self):
            super().__init__(np.float32, 0, 1, None)
            self.h = T.Parameter()
            self.metric = Metric()
            self.seen = []

        def forward(self, data):
            b = int(data["b"])
            self.seen.append((b, self.training, T.job.grad, data["inputs"].device))
            loss = T.Tensor(float(b) + 0.5, T.Source([self.h], b) if T.job.grad else None)
            return loss, T.Tensor(np.asarray([b, b + 1.0])), T.Tensor(np.asarray([1.0, b]))

        def get_score(self, data):
            self.seen.append((data["b"].tolist(), self.training, T.job.grad, data["inputs"].device))
            return T.Tensor(data["inputs"].v[0][:, None] * np.asarray([[1.0, 2.0]]))
    return Model


class Data:
    """The batches first … first + n - 1, the same ones in every epoch."""

    def __init__(self, n, first=0, skip=0):
        self.n, self.first, self.skip = n, first, skip

    def __iter__(self):
        one = {"inputs": T.Tensor(0), "b": T.Tensor(0)}
        for i in range(self.skip):
            yield one
        for i in range(self.skip, self.n):
            yield {"inputs": T.Tensor(np.asarray([[10 * (i + self.first), 10 * (i + self.first) + 1]])),
                   "b": T.Tensor(i + self.first)}


def arguments(c, root):
    """The options as the command line gives them."""
    from deepgnn.pytorch.training.factory import get_args
    a = ["--model_dir", root, "--save_path", root, "--metric_dir", root, "--batch_size", str(BS), "--job_id", "j",
         "--num_epochs", str(c["E"]), "--mode", c.get("mode", "train"), "--max_samples", str(c["limit"]),
         "--save_ckpt_by_steps", str(c["steps"]), "--save_ckpt_by_epochs", str(c["epochs"]),
         "--max_saved_ckpts", str(c["keep"]), "--warmup", str(c["warm"]), "--trainer", c.get("trainer", "base"),
         "--eval_during_train_by_steps", str(c.get("eval", 0)), "--log_by_steps", str(c.get("log", 1)),
         "--fp16", c.get("fp16", "no")]
    a += ["--sort_ckpt_by_mtime"] * c["mtime"] + ["--use_per_step_metrics"] * c.get("per", 0)
    a += ["--gpu"] * c.get("gpu", 0) + ["--clip_grad", "--grad_max_norm", "2.5"] * c.get("clip", 0)
    return get_args(None, a)


# -- reference model ------------------------------------------------------------------------------


def shape(c):
    """(steps of the schedule per epoch, steps really made per epoch)"""
    ms = c["limit"] // (BS * c.get("world", 1)) if c["limit"] > 0 else -1
    return ms, (min(c["B"], ms) if ms > 0 else c["B"])


def rate(c, k):
    ms, _ = shape(c)
    if ms <= 0:
        return 1.0
    total = ms * c["E"]
    warm = c["warm"] * total
    return round(k / max(1, warm) if k < warm else max(0.0, (total - k) / max(1, total - warm)), 9)


def updates(c, e0=0, s0=0, k0=0):
    """The updates from step s0 of epoch e0 (number k0 of all) to the end."""
    _, S = shape(c)
    out, k = [], k0
    tail = (("clip", 2.5),) if c.get("clip") else ()
    for e in range(e0, c["E"]):
        for s in range(s0 if e == e0 else 0, S):
            out.append((tuple(s + 1000 * r for r in range(c.get("world", 1))) + tail, rate(c, k)))
            k += 1
    return tuple(out)


def saves(c, e0=0, s0=0):
    """(epoch, step) of the checkpoints a run from there writes, in order."""
    ms, S = shape(c)
    out = []
    for e in range(e0, c["E"]):
        for s in range((s0 if e == e0 else 0) + 1, S + 1):
            if c["steps"] and s % c["steps"] == 0 and s != ms:
                out.append((e, s))
        if e % c["epochs"] == 0 or e + 1 == c["E"]:
            out.append((e + 1, 0))
    return out


# -- contents of the directory --------------------------------------------------------------------


def read(root):
    """Content of the directory: files from the one changed first to the one changed last."""
    fs = []
    for x in os.listdir(root):
        p = os.path.join(root, x)
        if os.path.isfile(p):
            with T._open(p, "rb") as f:
                fs.append((os.stat(p).st_mtime_ns, x, f.read()))
    return tuple((n, b) for _, n, b in sorted(fs))


def restore(root, state):
    T.Disk.start(None)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    T.Disk.clock = 0
    for n, b in state:
        p = os.path.join(root, n)
        with T._open(p, "wb") as f:
            f.write(b)
        T.Disk.touch(p)


def checkpoints(state):
    """((epoch, step), history) of the complete checkpoints, in the order they were written."""
    out = []
    for n, b in state:
        if n.endswith(".pt") and not n.startswith("."):
            try:
                d = pickle.loads(b)
                out.append(((d["epoch"], d["step"]), d["state_dict"]["h"].hist))
            except Exception:
                pass
    return out


def newest(c, ck):
    return None if not ck else ck[-1] if c["mtime"] else max(ck, key=lambda x: x[0])


def one(c, args, root, state):
    """Run a new process from the given content; returns what it did and what a kill at any moment leaves."""
    restore(root, state)
    left = []
    T.Disk.start(root, lambda: left.append(read(root)))
    r = process(c, args)
    r.left = left
    T.Disk.start(None)
    r.state = read(root)
    return r


def process(c, args, rank=0):
    """One process of a job."""
    from deepgnn.pytorch.training.factory import get_trainer
    r = argparse.Namespace(error=None, result=None, model=None, trainer=None)
    try:
        r.trainer = get_trainer(argparse.Namespace(**vars(args)))
        r.model = c["class"]()
        opt = T.SGD(r.model.parameters(), lr=1.0) if c.get("mode", "train") == "train" else None
        ev = Data(c["V"], 500 + 1000 * rank) if c.get("V") is not None else None
        r.result = r.trainer.run(r.model, Data(c["B"], 1000 * rank, c.get("skip", 0)), opt, ev)
    except (T.Unsupported, sched.Abort):
        raise
    except BaseException as x:
        r.error = "%s: %s" % (type(x).__name__, str(x)[:200])
    return r


def judge(c, t, case, state, r, base):
    """Compare one run, and every kill of it, with the reference."""
    what = "%r from %r" % ({k: v for k, v in c.items() if k != "class"}, [n for n, _ in state])
    before = checkpoints(state)
    start = newest(c, before)
    at, hist = start if start else ((0, 0), base)
    if r.error:
        t.violation("restart", "%s: fails with %s" % (what, r.error), case)
        return
    after = checkpoints(r.state)
    full = hist + updates(c, at[0], at[1], len(hist) if not c.get("old") else len(hist) + c["old"])
    cut = {}
    _, S = shape(c)
    for e, s in [at] + saves(c, *at):
        cut[e, s] = full[:len(hist) + (e - at[0]) * S + s - at[1]]
    last = at
    order = [at] + saves(c, *at)
    for st in r.left + [r.state]:
        ck = checkpoints(st)
        for p, h in ck:
            if (p, h) not in before and cut.get(p) != h:
                t.violation("checkpoint", "%s: checkpoint %r holds %r, should hold %r" % (what, p, h, cut.get(p)), case)
                return
        now = newest(c, ck)
        if (start or last != at) and (now is None or now[0] not in order or order.index(now[0]) < order.index(last)):
            t.violation("lost", "%s: newest checkpoint was %r, is %r" % (what, last, now and now[0]), case)
            return
        if now and now[0] in order:
            last = now[0]
    if r.model.h.hist != full:
        t.violation("history", "%s: trained %r, should be %r" % (what, r.model.h.hist, full), case)
        return
    left = [p for p, _ in before]
    for p in saves(c, *at):
        left = [x for x in left if x != p] + [p]
        if not c["mtime"]:
            left.sort()
        if c["keep"]:
            left = left[-c["keep"]:]
    got = [p for p, _ in after]
    if sorted(got) != sorted(left):
        t.violation("kept", "%s: checkpoints %r are left, should be %r" % (what, sorted(got), sorted(left)), case)


def run_train(c, t, case):
    """All contents of the directory that any number of kills can lead to."""
    root = os.path.join(H.scratch(), "t01_%d" % os.getpid())
    args = arguments(c, root)
    base = ()
    first = ()
    for e, s, h, old in c.get("init", ()):
        d = {"state_dict": {"h": T.Parameter(h)}, "epoch": e, "step": s}
        first += (("gnnmodel-%03d-%06d.pt" % (e, s), pickle.dumps(d)),)
    todo, seen = [first], {first}
    while todo:
        state = todo.pop()
        r = one(c, args, root, state)
        t.evals += 1
        t.trans += len(r.left) + 1
        t.state(case, state)
        judge(c, t, case, state, r, base)
        if t.violations:
            return
        for q in r.left + [r.state]:
            if q not in seen:
                seen.add(q)
                todo.append(q)
    shutil.rmtree(root, ignore_errors=True)


# -- evaluation, inference and several ranks ------------------------------------------------------


def metric(bs, per):
    """Value of the metric over the given batches."""
    one = [100.0 * (2 * b + 1) + 1 + b for b in bs]
    return (float(np.mean(one)) if one else 0.0) if per else float(sum(one))


def run_ranks(c, world):
    """All ranks of a job as threads; returns the result of each."""
    root = os.path.join(H.scratch(), "t01_%d" % os.getpid())
    args = arguments(c, root)
    out = {}
    w = T.World(world)
    for k, x in (("MASTER_ADDR", "localhost"), ("MASTER_PORT", "1"), ("RANK", "0"), ("WORLD_SIZE", str(world))):
        os.environ[k] = x

    def rank(i):
        T.job.rank, T.job.world = i, w
        out[i] = process(c, args, i)

    def body():
        ts = [threading.Thread(target=rank, args=(i,)) for i in range(1, world)]
        T.job.rank, T.job.world = 0, w
        for x in ts:
            x.start()
        rank(0)
        for x in ts:
            x.join()
        T.job.rank, T.job.world = 0, None
    restore(root, c.get("state", ()))
    T.Disk.start(root)
    T.SummaryWriter.rows = []
    e = None
    if world == 1:
        body()
    else:
        e = sched.Execution(max_steps=100000).run(body)
    writes = T.Disk.log
    T.Disk.start(None)
    return e, out, w, read(root), T.SummaryWriter.rows, writes


def run_job(c, t, case):
    world = c.get("world", 1)
    mode = c.get("mode", "train")
    e, out, w, files, rows, writes = run_ranks(c, world)
    t.evals += 1
    t.trans += sum(len(r.model.seen) for r in out.values() if r.model)
    what = repr({k: v for k, v in c.items() if k not in ("class", "state")})
    if e is not None and (e.outcome or e.error):
        t.violation("ranks:stuck", "%s: %s %s" % (what, e.outcome, str(e.error or e.blocked_info)[:300]), case)
        return
    bad = [r.error for r in out.values() if r.error]
    if bad:
        t.violation(mode + ":error", "%s: %s" % (what, bad[0]), case)
        return
    if w.kinds:
        t.violation("ranks:mixed", "%s: %r" % (what, w.kinds), case)
        return
    ms, S = shape(c)
    start = newest(c, checkpoints(c.get("state", ())))
    at, hist = start or ((0, 0), ())
    dev = "cuda" if c.get("gpu") else "cpu"
    for i in range(world):
        m = out[i].model
        want = []
        if mode == "train":
            for ep in range(at[0], c["E"]):
                for s in range(at[1] if ep == at[0] else 0, S):
                    want.append((s + 1000 * i, True, True, dev))
                    if c.get("V") is not None and c["eval"] and (s + 1) % c["eval"] == 0:
                        want += [(500 + 1000 * i + v, False, False, dev) for v in range(c["V"])]
        else:
            want = [(b + 1000 * i, False, False, dev) for b in range(S)]
        if m.seen != want:
            t.violation(mode + ":batches", "%s: rank %d sees %r, should see %r" % (what, i, m.seen, want), case)
            return
        full = hist + updates(c, at[0], at[1], len(hist)) if mode == "train" else hist
        if m.h.hist != full:
            t.violation(mode + ":model", "%s: model of rank %d is %r, should be %r" % (what, i, m.h.hist, full), case)
            return
        if mode == "evaluate":
            v = float(np.mean([metric([b + 1000 * r for b in range(S)], c["per"]) for r in range(world)]))
            if abs(float(out[i].result) - v) > 1e-6 * max(1, abs(v)):
                t.violation("evaluate:metric", "%s: metric is %r, should be %r" % (what, float(out[i].result), v), case)
                return
        if mode == "train" and c.get("V") is not None and c["per"]:
            v = float(np.mean([metric([500 + 1000 * r + b for b in range(c["V"])], True) for r in range(world)]))
            got = [x[2] for x in rows if x[0] == i and x[1] == "Validation/Metric"]
            n = sum(1 for x in want if x[1] and (x[0] % 1000 + 1) % c["eval"] == 0) if c["eval"] else 0
            if len(got) != n or any(abs(x - v) > 1e-6 * max(1, abs(v)) for x in got):
                t.violation("train:metric", "%s: metrics of rank %d are %r, should be %d times %r" % (what, i, got, n, v), case)
                return
        if mode == "train" and c.get("log"):
            got = [(x[1], x[3]) for x in rows if x[0] == i and x[1] in ("Training/Loss", "Training/LR")]
            ks = [len(hist) + j + 1 for j, x in enumerate([x for x in want if x[1]]) if (x[0] % 1000 + 1) % c["log"] == 0]
            if [k for n, k in got if n == "Training/Loss"] != ks or (
                    ms > 0 and [k for n, k in got if n == "Training/LR"] != ks):
                t.violation("train:points", "%s: points of rank %d are %r, should be at steps %r" % (what, i, got, ks), case)
                return
    if mode == "train" and writes:
        t.violation("ranks:writes", "%s: %r" % (what, writes[:3]), case)
        return
    names = dict(files)
    ck = sorted(p for p, _ in checkpoints(files))
    if mode != "train":
        if ck != sorted(p for p, _ in checkpoints(c.get("state", ()))):
            t.violation(mode + ":checkpoints", "%s: %r" % (what, ck), case)
            return
    if mode == "inference":
        for i in range(world):
            want = "".join("%d %s %s\n" % (x, float(x), 2.0 * x) for b in range(S)
                           for x in (10 * (b + 1000 * i), 10 * (b + 1000 * i) + 1))
            got = names.get("embedding-%d.tsv" % i, b"").decode()
            if got != want:
                t.violation("inference:file", "%s: rank %d writes %r, should write %r" % (what, i, got, want), case)
                return
    t.state(case, sorted(ck))


# -- run_dist: options, data set and loader workers -----------------------------------------------


class Backend:
    """Graph of a custom backend: nothing but its name."""

    made = []

    def __init__(self, options, is_leader=False):
        self.graph = "graph"
        Backend.made.append((self, is_leader))
        self.closed = 0

    def close(self):
        self.closed += 1


def run_whole(c, t, case):
    """run_dist with a file or range sampler, a custom backend and a number of loader workers."""
    from deepgnn.graph_engine import BackendType, samplers
    from deepgnn.pytorch.common.dataset import TorchDeepGNNDataset
    from deepgnn.pytorch.training import run_dist
    root = os.path.join(H.scratch(), "t01_%d" % os.getpid())
    restore(root, ())
    n, bs, dp, W, idx, kind = c["n"], c["bs"], c["dp"], c["W"], c["idx"], c["sampler"]
    models = []
    Backend.made = []
    if kind == "file":
        for k in range(4):
            with T._open(os.path.join(root, "nodes_%d" % k), "w") as f:
                f.write("".join("%d\n" % x for x in range(n) if x % 4 == k))

    def query(graph, inputs):
        assert graph == "graph"
        return {"inputs": T.Tensor(np.asarray([inputs])), "b": T.Tensor(inputs)}

    def make_model(args):
        m = c["class"]()
        def forward(data):
            m.seen.append(tuple(int(x) for x in data["b"].v.ravel()))
            return T.Tensor(0.5, T.Source([m.h], m.seen[-1]) if T.job.grad else None), T.Tensor([1.0]), T.Tensor([1.0])
        m.forward = forward
        models.append(m)
        return m

    def make_data(args, model, rank, world_size, backend):
        k = dict(first=0, last=n, backfill_id=-1) if kind == "range" else dict(
            sample_files=os.path.join(root, "nodes_*"), shuffle=False, backfill_id=-1)
        return TorchDeepGNNDataset(samplers.RangeNodeSampler if kind == "range" else samplers.FileNodeSampler,
                                   query, backend, num_workers=W, worker_index=idx, batch_size=bs, epochs=1,
                                   enable_prefetch=False, **k)

    def extra(parser):
        parser.set_defaults(backend=BackendType.CUSTOM, custom_backendclass=Backend)
    run_dist(make_model, make_data, (lambda args, model, world_size: T.SGD(model.parameters(), lr=1.0)) if c["mode"] == "train" else None,
             extra, ["--model_dir", root, "--save_path", root, "--metric_dir", root, "--batch_size", str(bs), "--num_epochs", str(c["E"]),
                     "--data_parallel_num", str(dp), "--mode", c["mode"], "--use_per_step_metrics"])
    t.evals += 1
    t.trans += len(models[0].seen) + 1
    what = repr({k: v for k, v in c.items() if k != "class"})
    if [(b.closed, lead) for b, lead in Backend.made] != [(1, True)]:
        t.violation("whole:backend", "%s: %r" % (what, [(b.closed, lead) for b, lead in Backend.made]), case)
        return
    if c["mode"] == "inference":
        with T._open(os.path.join(root, "embedding-0.tsv")) as f:
            flat = [int(x.split()[0]) for x in f]
        seen = [flat]
    else:
        per = len(models[0].seen) // c["E"] if c["mode"] == "train" else len(models[0].seen)
        seen = [[x for b in models[0].seen[i:i + per] for x in b] for i in range(0, len(models[0].seen), per or 1)]
        if c["mode"] == "train" and (len(models[0].seen) % c["E"] or len(models[0].h.hist) != len(models[0].seen)):
            t.violation("whole:steps", "%s: %r" % (what, models[0].seen), case)
            return
    t.state(case, seen)
    return [sorted(x for x in s if x != -1) for s in seen]


def run_whole_all(c, t, case):
    """The jobs of all workers together see every node once in every epoch."""
    got = []
    for idx in range(c["W"]):
        got.append(run_whole(dict(c, idx=idx), t, case))
        if t.violations:
            return
    E = c["E"] if c["mode"] == "train" else 1
    want = list(range(c["n"]))
    for e in range(E):
        alll = sorted(x for g in got for x in (g[e] if e < len(g) else []))
        if alll != want:
            t.violation("whole:nodes", "%r: epoch %d sees %r, should see %r" % (
                {k: v for k, v in c.items() if k != "class"}, e, alll, want), case)
            return


def base(**k):
    d = dict(B=2, E=1, limit=0, steps=0, epochs=1, keep=0, mtime=0, warm=0.25)
    d.update(k)
    return d


def cases():
    for B, E in itertools.product((0, 1, 2, 3, 4), (1, 2, 3)):
        for limit in sorted({0, 2, 2 * B + 1, 2 * max(1, B - 1), 2 * B + 4} if B else {0, 3}):
            for steps, epochs, keep in itertools.product((0, 1, 2, 3), (1, 2, 3), (0, 1, 2, 3)):
                if limit not in (0, 2 * max(1, B - 1)) and keep not in (0, 2) or epochs == 3 and keep == 3:
                    continue
                yield "train", base(B=B, E=E, limit=limit, steps=steps, epochs=epochs, keep=keep)
    for B, E, steps, keep in itertools.product((1, 2, 3), (1, 2, 3), (0, 1, 2), (0, 1, 2, 3)):
        yield "train", base(B=B, E=E, steps=steps, keep=keep, mtime=1)
        if keep:
            yield "train", base(B=B, E=E, steps=steps, keep=keep, mtime=1, init=((9, 0, ("other",), 0), (9, 4, ("other",), 0), (0, 1, ("mine",), 0)))
    # longer runs, and numbers of more digits than the names were made for
    yield "train", base(B=7, E=12, steps=3, keep=2)
    yield "train", base(B=12, E=3, steps=1, keep=4, limit=22)
    for e in (8, 9, 10, 98, 99, 100, 998, 999, 1000, 1001, 9998, 9999, 10000, 99999):
        for keep, steps in ((0, 0), (1, 0), (2, 2), (3, 1)):
            yield "train", base(B=3, E=e + 3, keep=keep, steps=steps, init=((e, 0, ("e%d" % e,), 0),))
            yield "train", base(B=3, E=e + 2, keep=keep, steps=steps, init=((e - 1, 0, ("x",), 0), (e, 1, ("e%d" % e,), 0)))
    for s in (9, 99, 999, 9999, 99998, 99999, 999998, 999999, 1000000):
        for keep in (0, 1, 2) if s < 500000 else (0, 2):
            yield "train", base(B=s + 4, E=1, keep=keep, steps=1, skip=s, init=((0, s, ("s%d" % s,), 0),))
    # checkpoints of before the number of steps was kept
    for B, E, e, s in ((3, 3, 1, 0), (3, 3, 1, 2), (4, 4, 2, 1), (2, 3, 2, 0)):
        ms = B
        yield "train", base(B=B, E=E, limit=2 * B, steps=1, init=((e, s, ("x",), 0),), old=e * ms + s - 1)
    # evaluation and inference
    for mode, B, limit, per in itertools.product(("evaluate", "inference"), (0, 1, 2, 3, 5, 9), (0, 2, 4, 5, 9, 18, 30), (0, 1)):
        if mode == "evaluate" and B == 0 and not per:
            continue
        for st in (0, 1):
            yield "job", base(B=B, limit=limit, mode=mode, per=per, st=st, log=1 + B % 2)
    for B, E, V, ev, per, limit in itertools.product((1, 2, 3, 4), (1, 2), (1, 2, 3), (0, 1, 2, 3), (0, 1), (0, 2, 4, 6, 8)):
        yield "job", base(B=B, E=E, V=V, eval=ev, per=per, limit=limit, log=1 + E % 2)
    for B, gpu, fp16, clip, E in itertools.product((1, 3), (0, 1), ("no", "amp"), (0, 1), (1, 2)):
        for trainer in ("base", "ddp", "hvd"):
            for mode in ("train", "evaluate", "inference"):
                yield "job", base(B=B, E=E, gpu=gpu, fp16=fp16, clip=clip, trainer=trainer, mode=mode, per=1, V=2 if mode == "train" else None, eval=2)
    for trainer, world, mode, B, limit, E in itertools.product(("ddp", "hvd"), (1, 2, 3), ("train", "evaluate", "inference"), (1, 2, 3), (0, 1, 2), (1, 2)):
        for st, ev, steps in itertools.product((0, 1), (0, 2), (0, 1)):
            if mode != "train" and (ev or steps or E > 1):
                continue
            yield "job", base(B=B, E=E, limit=limit * world * BS, trainer=trainer, world=world, mode=mode, per=1, st=st, steps=steps,
                              keep=2 * steps, **({"V": 2, "eval": ev} if ev else {}))
    # options, data set and loader workers together
    for kind, n, bs, dp, W, E, mode in itertools.product(("range", "file"), (1, 2, 3, 4, 5, 8, 13), (1, 2, 3), (0, 1, 2, 3), (1, 2, 3), (1, 2),
                                                        ("train", "evaluate", "inference")):
        if E == 2 and mode != "train" or kind == "range" and n <= (W - 1) * bs * max(1, dp) or kind == "file" and n < 4:
            continue
        yield "whole", dict(n=n, bs=bs, dp=dp, W=W, E=E, mode=mode, sampler=kind)


def run(case, t):
    try:
        run_case(case, t)
    except T.Unsupported as x:
        t.count("unsupported: %s" % x)


def run_case(case, t):
    kind, c = case[0], dict(case[1])
    c["class"] = MODEL
    if kind == "train":
        run_train(c, t, case)
    elif kind == "whole":
        run_whole_all(c, t, case)
    else:
        if c.get("st"):
            h = (((0,), 1.0), ((1,), 1.0))
            ms, S = shape(c)
            at = (0, min(2, S - 1)) if c.get("mode", "train") == "train" else (3, 1)
            h = updates(c)[:at[1]] if c.get("mode", "train") == "train" else h
            d = {"state_dict": {"h": T.Parameter(h)}, "epoch": at[0], "step": at[1]}
            c["state"] = (("gnnmodel-%03d-%06d.pt" % at, pickle.dumps(d)),)
        run_job(c, t, case)


MODEL = None


def main():
    global MODEL
    H.quiet_logging()
    MODEL = model_class()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))["replay"]
        t = H.Tally()
        run((d[0], {k: tuple(tuple(tuple(y) if isinstance(y, list) else y for y in x) for x in v) if k == "init" else v for k, v in d[1].items()}), t)
        print(t.violations)
        H.cleanup()
        sys.exit(1 if t.violations else 0)
    H.run_cases(check, run, list(cases()), case_timeout=200)
    more = [k for k in check.tally.extra if k.startswith("unsupported")]
    if more:
        print("T01: the stand-in for torch does not have %s" % more)
        H.cleanup()
        sys.exit(3)
    check.finish()


if __name__ == "__main__":
    main()
