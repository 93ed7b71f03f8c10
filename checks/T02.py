"""T02: the workers of a TensorFlow job wait for each other and the last checkpoint has the work of all of them."""
import argparse
import itertools
import json
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H  # noqa: E402
import sched  # noqa: E402

sched.install(mp=False)
import threading  # noqa: E402
import tflib as F  # noqa: E402

F.install()
import numpy as np  # noqa: E402

check = H.Check("T02", rule="one evaluation = one job of one or more workers run to its end under one schedule from one content of the model directory; "
                "distinct = different (job, what it left, order in which the workers left)",
                assumptions=["tensorflow and horovod are stand-ins that keep the history of updates in place of numbers",
                             "the first worker makes its trainer before the others, as its class asks for",
                             "a trainer is used for one call of train, evaluate or inference"])

HOSTS = ["h0:1", "h1:1", "h2:1"]


PARSED = {}
LACKS = []      # what the stand-in turned out not to have in this case


def arguments(c, rank, root):
    key = repr((c, rank, root))
    if key not in PARSED:
        if len(PARSED) > 8:
            PARSED.clear()
        PARSED[key] = parse(c, rank, root)
    return PARSED[key]


def note(x):
    if F.lacks(x):
        LACKS.append(F.lacks(x))


def parse(c, rank, root):
    from deepgnn.tf.common.args import import_default_parameters
    p = argparse.ArgumentParser()
    import_default_parameters(p)
    a = ["--model_dir", root, "--trainer", c["trainer"], "--job_id", "j", "--log_save_steps", "1",
         "--summary_save_steps", str(c.get("every", 1)), "--user_name", "u"]
    if c["trainer"] == "ps" and not c.get("eager"):
        if c.get("cluster", True):
            a += ["--job_name", c.get("job", "worker"), "--task_index", str(rank), "--ps_hosts", "p0:1,p1:1",
                  "--worker_hosts", ",".join(HOSTS[:c["n"]])]
    return p.parse_args(a + ["--eager"] * bool(c.get("eager")) + ["--seed", "3"] * bool(c.get("seed")))


class GraphModel:
    """Model of the graph mode: its loss is the number of the batch."""

    def __call__(self, context, training=None):
        g = F.job.graph
        return None, context[0], {"acc": F.Tensor(lambda m: (context[0].get(m), g.store.hist))}

    def predict_step(self, context):
        g = F.job.graph
        nodes = F.Tensor(lambda m: np.asarray(context[0].get(m), dtype=np.int64))
        return [nodes, F.Tensor(lambda m: embed(nodes.get(m), g.store.hist))]


def embed(nodes, hist):
    return np.asarray([[x * 2 + len(hist), x + 0.25 - len(hist)] for x in nodes], dtype=np.float64).reshape(len(nodes), 2)


def lines(batches, hist):
    return "".join("%d\t%.6f %.6f\n" % (x, x * 2 + len(hist), x + 0.25 - len(hist)) for b in batches for x in b if x != -1)


def batches(c, rank):
    n = c["B"][rank]
    if c["mode"] == "inference":
        return [tuple(100 * rank + 10 * k + j for j in range(2)) + (-1,) * (k % 2) for k in range(n)]
    return [100 * rank + k for k in range(n)]


def restore(c):
    root = os.path.join(H.scratch(), "t02_%d" % os.getpid())
    F.ROOT[0] = None
    shutil.rmtree(root, ignore_errors=True)
    d = os.path.join(root, c.get("folder", "m"))
    os.makedirs(d)
    for name in c.get("left", ()):
        with F._open(os.path.join(d, name), "w") as f:
            f.write("2020")
    if c.get("old"):
        F.write_checkpoint(d, "model.ckpt-%d" % len(c["old"]), (tuple(c["old"]), len(c["old"])))
    F.ROOT[0] = root
    return d


def read(d, name):
    try:
        with F._open(os.path.join(d, name)) as f:
            return f.read()
    except OSError:
        return None


def make(c, box):
    """The job as a function to run under the scheduler."""
    d = restore(c)
    box.update(cluster=F.Cluster(c["n"], c["trainer"] == "ps"), dir=d, errors=[], left=[])
    cl = box["cluster"]

    def worker(rank, first):
        F.begin(rank, cl)
        try:
            from deepgnn.tf.common.trainer_factory import get_trainer
            from deepgnn.tf.common.utils import node_embedding_to_string
            tr = get_trainer(arguments(c, rank, d))
            if rank == 0:
                first.set()
            data = F.Dataset(lambda: iter(batches(c, rank)))
            if c["mode"] == "train":
                tr.train(dataset=data, model=GraphModel(), optimizer=F.Optimizer(), epochs=c["E"])
            elif c["mode"] == "evaluate":
                tr.evaluate(dataset=data, model=GraphModel())
            else:
                tr.inference(dataset=data, model=GraphModel(), embedding_to_str_fn=node_embedding_to_string,
                             **({"output_embedding_file_prefix": c["prefix"]} if "prefix" in c else {}))
            box["left"].append((rank, {r: len(x) for r, x in cl.steps.items()}, cl.saved[-1:], [
                read(d, "%s_%d.tsv" % (c.get("prefix", "embedding"), r)) for r in range(c["n"])]))
        except sched.Abort:
            raise
        except BaseException as e:
            note(e)
            box["errors"].append("worker %d: %r" % (rank, e))
            first.set()

    def body():
        first = threading.Event()
        ts = [threading.Thread(target=worker, args=(r, first), daemon=True) for r in range(c["n"])]
        ts[0].start()
        first.wait()
        for x in ts[1:]:
            x.start()
        for x in ts:
            x.join()
    return body


def judge(c, e, box, t, case):
    """Complaint about one finished job, or None."""
    cl = box["cluster"]
    if box["errors"]:
        return "error", box["errors"][0]
    if e.outcome or e.error:
        return "stuck", "%s %s" % (e.outcome, str(e.error or e.blocked_info)[:300])
    if cl.world.kinds:
        return "mixed", repr(cl.world.kinds)
    n, old = c["n"], tuple(c.get("old", ()))
    mine = {r: batches(c, r) * (c["E"] if c["mode"] == "train" else 1) for r in range(n)}
    want = {r: x if c["trainer"] == "ps" else [tuple(mine[q][k] for q in range(n)) for k in range(len(x))] for r, x in mine.items()}
    if c["mode"] == "train":
        total = sum(map(len, want.values())) if c["trainer"] == "ps" else len(want[0])
        if any(cl.steps[r] != want[r] for r in range(n)):
            return "batches", "steps are %r, should be %r" % (cl.steps, want)
        if {r for r, _, _ in cl.saved} - {0}:
            return "saver", "workers that write checkpoints: %r" % sorted({r for r, _, _ in cl.saved})
        for who, steps, saved, _ in box["left"]:
            if not saved or len(saved[0][2]) != len(old) + total or saved[0][2][:len(old)] != old or (
                    sorted(saved[0][2][len(old):]) != sorted(x for r in (range(n) if c["trainer"] == "ps" else [0]) for x in want[r])):
                return "left", "worker %d leaves when the last checkpoint is %r, all did %r before, should do %r" % (
                    who, saved, steps, want)
        got = F.read_checkpoint(box["dir"])
        if got is None or got[0] != cl.saved[-1][2]:
            return "checkpoint", "checkpoint is %r" % (got,)
        kind = "train"
    else:
        if cl.saved:
            return "saver", "%s writes checkpoints %r" % (c["mode"], cl.saved)
        kind = "evaluate"
    rows = {}
    for r, where, name, v in cl.rows:
        if os.path.normpath(where) != os.path.normpath(os.path.join(box["dir"], kind, "worker_%d" % r)):
            return "rows", "worker %d writes its summary to %r" % (r, where)
        rows.setdefault((r, name), []).append(v)
    for r in range(n):
        seen = mine[r][::c.get("every", 1)] if c["mode"] != "inference" else []
        if rows.get((r, "loss"), []) != seen and c["mode"] != "inference":
            return "rows", "losses of worker %d are %r, should be %r" % (r, rows.get((r, "loss")), seen)
        acc = rows.get((r, "acc"), [])
        if [v for v, _ in acc] != seen or c["mode"] == "evaluate" and any(h != old for _, h in acc):
            return "rows", "metrics of worker %d are %r, should be of %r with %r" % (r, acc, seen, old)
    if c["mode"] == "inference":
        texts = [lines(batches(c, r), old) for r in range(n)]
        for who, _, _, files in box["left"]:
            if files != texts:
                return "left", "worker %d leaves when the files are %r, should be %r" % (who, files, texts)
        from deepgnn.tf.common.utils import load_embeddings
        if any(c["B"]):
            size = 100 * n + 100
            got = load_embeddings(box["dir"], size, 2, **({"fileprefix": c["prefix"] + "_*.tsv"} if "prefix" in c else {}))
            full = np.zeros((size, 2), dtype=np.float32)
            ids = [x for r in range(n) for b in batches(c, r) for x in b if x != -1]
            full[ids] = embed(ids, old)
            if not np.array_equal(got, full):
                return "embeddings", "embeddings read back differ at nodes %r" % np.where(got != full)[0][:5].tolist()
    return None


def run_job(c, t, case):
    box = {}
    bad = []

    def visit(e, script):
        t.evals += 1
        t.trans += e.steps
        b = judge(c, e, box, t, case)
        t.state(repr(case), [x[0] for x in box["left"]], sorted(os.listdir(box["dir"])))
        if b:
            bad.append((b, script))
        return bool(b)
    if "bound" in c:
        st = sched.explore(lambda: make(c, box), c["bound"], visit, max_steps=20000)
        if st.capped:
            t.capped = True
    else:
        visit(sched.Execution(max_steps=200000).run(make(c, box)), [])
    if bad:
        (kind, text), script = bad[0]
        t.violation("%s:%s:%s" % (c["trainer"], c["mode"], kind), "%r, schedule %r: %s" % (c, script, text), case)


# -- eager mode -----------------------------------------------------------------------------------


class EagerModel(F.Model):
    def outputs(self, b):
        return [np.asarray(b, dtype=np.int64), embed(b, self.hist)]


class Mine(F.Callback):
    def __init__(self):
        super().__init__()
        self.seen = []

    def on_batch_end(self, batch, logs=None):
        self.seen.append(("train", batch))

    def on_test_batch_end(self, batch, logs=None):
        self.seen.append(("test", batch))


def run_eager(c, t, case):
    """train, then evaluate and inference with new trainers and models."""
    from deepgnn.tf.common.trainer_factory import get_trainer
    d = restore(c)
    n, E, steps = c["n"], c["E"], c["steps"]
    cl = F.Cluster(n, False)
    out, errors, got = {}, [], {}
    hvd = c["trainer"] == "hvd"
    if hvd:
        os.environ.pop("TF_CONFIG", None)
    elif c["index"] is not None:
        os.environ["TF_CONFIG"] = json.dumps({"cluster": {"worker": HOSTS}, "task": {"type": "worker", "index": c["index"]}})

    def worker(rank):
        F.begin(rank, cl)
        try:
            user = Mine()
            m = EagerModel()
            opt = F.DistributedOptimizer(None) if hvd else F.Optimizer()
            if rank:
                m.hist = ("other",)
            get_trainer(arguments(c, rank, d)).train(dataset=F.Dataset(lambda: iter([100 * rank + k for k in range(c["B"])])), model=m,
                                                     optimizer=opt, loss="l", metrics=["m"], epochs=E, steps_per_epoch=steps,
                                                     callbacks=[user] if c["user"] else None)
            F.exchange("end", 0)
            out[rank] = (m, list(user.seen), len(cl.rows))
            m2 = EagerModel()
            get_trainer(arguments(c, rank, d)).evaluate(dataset=F.Dataset(lambda: iter([100 * rank + k for k in range(c["B"])])), model=m2,
                                                        loss="l", metrics=["m"], steps=steps, callbacks=[user] if c["user"] else None)
            m3 = EagerModel()
            data = [tuple(100 * rank + 10 * k + j for j in range(2)) + (-1,) * (k % 2) for k in range(c["B"])]
            get_trainer(arguments(c, rank, d)).inference(dataset=F.Dataset(lambda: iter(data)), model=m3, steps=steps)
            got[rank] = (m2, m3, user.seen, data)
        except sched.Abort:
            raise
        except BaseException as x:
            note(x)
            errors.append("worker %d: %r" % (rank, x))

    def body():
        ts = [threading.Thread(target=worker, args=(r,), daemon=True) for r in range(n)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
    e = sched.Execution(max_steps=100000).run(body)
    os.environ.pop("TF_CONFIG", None)
    t.evals += 1
    t.trans += e.steps

    def fail(kind, text):
        t.violation("eager:" + kind, "%r: %s" % (c, text), case)
    if errors or e.outcome or e.error:
        return fail("error", "%s %s %s" % (errors[:1], e.outcome, str(e.error or e.blocked_info)[:200]))
    one = c["B"] if steps is None else min(steps, c["B"])
    each = [min(one, max(0, c["B"] - k * one)) if steps is not None else one for k in range(E)]
    order = [k for k in range(one)] * E if steps is None else list(range(sum(each)))
    hist = tuple(tuple(100 * r + k for r in range(n)) if hvd else k for k in order)
    for r in range(n):
        m, seen, nrows = out[r]
        m2, m3, seen2, data = got[r]
        if m.hist != hist:
            return fail("train", "model of worker %d is %r, should be %r" % (r, m.hist, hist))
        if m.compiled[1:] != ("l", ["m"]) or m2.compiled[1:] != ("l", ["m"]):
            return fail("compile", "%r %r" % (m.compiled, m2.compiled))
        for name, x, data2 in (("evaluate", m2, [100 * r + k for k in range(one)]), ("inference", m3, data[:one])):
            if x.hist != hist or x.tested != data2:
                return fail(name, "worker %d uses %r on %r, should use %r on %r" % (r, x.hist, x.tested, hist, data2))
        who = c["index"] or 0 if not hvd else r
        text = read(d, "embedding_%d.tsv" % who)
        if text != lines(data[:one], hist):
            return fail("inference", "embedding_%d.tsv is %r, should be %r" % (who, text, lines(data[:one], hist)))
        rows = [(w, v) for q, w, nm, v in cl.rows if q == r and nm == "loss" and os.path.basename(os.path.dirname(w)) == "evaluate"]
        want = [(os.path.normpath(os.path.join(d, "evaluate", "worker_%d" % who)), float(100 * r + k)) for k in range(one) if k % c["every"] == 0]
        if rows != want:
            return fail("summary", "summary of worker %d is %r, should be %r" % (r, rows, want))
        calls = [("train", k) for q in each for k in range(q)] + [("test", k) for k in range(one)] if c["user"] else []
        if seen2 != calls:
            return fail("callbacks", "callback of the user sees %r, should see %r" % (seen2, calls))
    if {r for r, _, _ in cl.saved} - {0} or len(cl.saved) != E:
        return fail("checkpoints", "%r" % ([x[:2] for x in cl.saved],))
    t.state(case)


# -- data set and embedding files -----------------------------------------------------------------


class Backend:
    graph = "graph"


def run_data(c, t, case):
    from deepgnn.graph_engine import samplers
    from deepgnn.tf.common.dataset import create_tf_dataset
    d = restore(c)
    n, bs, W = c["N"], c["bs"], c["W"]
    if c["sampler"] == "file":
        for k in range(4):
            with F._open(os.path.join(d, "nodes_%d" % k), "w") as f:
                f.write("".join("%d\n" % x for x in range(n) if x % 4 == k))
    out = {}

    def query(graph, inputs, return_shape=False):
        assert graph == "graph"
        x = [np.asarray(inputs), np.asarray(inputs, dtype=np.float32)[:, None] * 2]
        return (x, [[None], [None, 1]]) if return_shape else x

    def body():
        for i in range(W):
            k = dict(first=0, last=n, backfill_id=-1) if c["sampler"] == "range" else dict(
                sample_files=os.path.join(d, "nodes_*"), shuffle=False, backfill_id=-1)
            ds, length = create_tf_dataset(
                samplers.RangeNodeSampler if c["sampler"] == "range" else samplers.FileNodeSampler, query, Backend(),
                num_workers=W, worker_index=i, batch_size=bs, enable_prefetch=c["prefetch"], **k)
            out[i] = ([[x for x in ds] for _ in range(c["E"])], length)
    F.begin(0, F.Cluster(1, False))
    e = sched.Execution(max_steps=100000).run(body)
    t.evals += 1
    t.trans += e.steps
    note(e.error)
    if e.outcome or e.error:
        t.violation("data:error", "%r: %s %r" % (c, e.outcome, e.error or e.blocked_info), case)
        return
    for ep in range(c["E"]):
        seen = []
        for i in range(W):
            for x, y in out[i][0][ep]:
                if not np.array_equal(y[:, 0], np.asarray(x) * 2) or len(x) != bs:
                    t.violation("data:batch", "%r: batch %r %r" % (c, x, y), case)
                    return
                seen += [int(v) for v in x if v != -1]
            if out[i][1] is not None and out[i][1] != len(out[i][0][ep]):
                t.violation("data:length", "%r: %d batches, length %r" % (c, len(out[i][0][ep]), out[i][1]), case)
                return
        if sorted(seen) != list(range(n)):
            t.violation("data:nodes", "%r: epoch %d gives nodes %r" % (c, ep, sorted(seen)), case)
            return
    t.state(case)


def run_text(c, t, case):
    from deepgnn.tf.common.utils import load_embeddings, node_embedding_to_string
    d = restore(c)
    dim, invalid = c["dim"], c["invalid"]
    vals = np.resize(np.asarray(c["values"], dtype=c["dtype"]), (4, dim))
    full = np.zeros((8, dim), dtype=np.float32)
    k = 0
    for i, part in enumerate(c["parts"]):
        nodes = np.asarray(part, dtype=np.int64)
        emb = vals[[(k + j) % len(vals) for j in range(len(part))]].reshape(len(part), dim)
        k += len(part)
        got = node_embedding_to_string([nodes, emb], invalid) if invalid != -1 else node_embedding_to_string([nodes, emb])
        want = ["%d\t%s\n" % (x, " ".join("%.6f" % v for v in y)) for x, y in zip(part, emb) if x != invalid]
        if list(got) != want:
            t.violation("text:lines", "%r: %r, should be %r" % (c, got, want), case)
            return
        with F._open(os.path.join(d, "embedding_%d.tsv" % i), "w") as f:
            f.write("".join(got))
        for x, y in zip(part, emb):
            if x != invalid:
                full[x] = [float("%.6f" % v) for v in y]
    t.evals += 1
    t.trans += len(c["parts"])
    got = load_embeddings(d, 8, dim)
    if not np.array_equal(got, full):
        t.violation("text:load", "%r: %r, should be %r" % (c, got.tolist(), full.tolist()), case)
    t.state(case)


FOLDERS = ("m", "m[1]", "m*", "m?", "[m]", "m 1", "a.b/sync.m", "m/1")


def subsets(xs):
    return [tuple(y) for k in range(len(xs) + 1) for y in itertools.combinations(xs, k)]


def cases():
    out = []
    for mode, trainer in itertools.product(("train", "evaluate", "inference"), ("ps", "hvd")):
        def job(n, B, E=1, **k):
            if trainer == "hvd" and len(set(B)) > 1:
                return
            if mode != "train" and E > 1:
                return
            if trainer == "hvd" and n == 3 and sum(B) * E > 3:
                k.pop("bound", 0)        # the workers meet at every step, which leaves too many orders
            out.append(("job", dict(mode=mode, trainer=trainer, n=n, B=B, E=E, **k)))
        olds = ((), ("x", "y"))
        for n in (1, 2, 3):
            files = ["sync.%s.%d" % (a, i) for a in ("session", "final") for i in range(n)]
            # everything earlier jobs may have left
            for left in subsets(files + ["sync.final.7"] * (n == 1)):
                for old in olds if len(left) in (0, 2 * n) else olds[:1]:
                    job(n, (2,) * n, left=left, old=old, bound=1 if n < 3 else 0)
            for B in itertools.product((0, 1, 2), repeat=n):
                for E in (1, 2):
                    job(n, B, E, left=tuple(files), bound=1 if n < 3 else 0)
            for folder in FOLDERS:
                job(n, (1,) * n, folder=folder, left=tuple(files), bound=0)
            for every in (2, 3):
                job(n, (4,) * n, 2, every=every)
            for B in (5, 9, 17, 33):
                job(n, (B,) * n, 3)
        job(2, (1, 1), left=("sync.final.0", "sync.final.1", "sync.session.0", "sync.session.1"), bound=2)
        job(3, (1, 1, 1), left=("sync.final.1", "sync.session.2"), bound=1)
        job(2, (3, 3), prefix="emb.x")
        job(1, (3,), seed=1)
        if trainer == "ps":
            job(1, (3,), 2, cluster=False)
            job(1, (3,), 2, cluster=False, left=("sync.final.0",))
    for E, B, steps, user, every in itertools.product((1, 2, 3), (1, 2, 5), (None, 1, 2), (0, 1), (1, 2)):
        for index in (None, 0, 1, 2):
            out.append(("eager", dict(trainer="ps", eager=1, n=1, E=E, B=B, steps=steps, user=user, every=every, index=index)))
        for n in (1, 2, 3):
            out.append(("eager", dict(trainer="hvd", eager=1, n=n, E=E, B=B, steps=steps, user=user, every=every, index=None)))
    for N, bs, W, E, sampler, pre in itertools.product((4, 5, 8, 9), (1, 2, 3, 4), (1, 2), (1, 2, 3), ("range", "file"), (False, True)):
        if W == 1 or sampler == "file" or N > bs:
            out.append(("data", dict(N=N, bs=bs, W=W, E=E, sampler=sampler, prefetch=pre)))
    ids = (-1, 0, 1, 7)
    for dim, dt in itertools.product((1, 2, 3), ("float32", "float64")):
        values = (0.0, -1.5, 0.1, 123456.75, 1e-7, -0.000001, 3.0, 1 / 3, 2.5)
        for k in range(5):
            for part in itertools.permutations(ids, k) if k < 5 else ():
                for cut in range(k + 1):
                    out.append(("text", dict(dim=dim, dtype=dt, values=values, invalid=-1, parts=(part[:cut], part[cut:]))))
        for part in itertools.product((-1, -1, 3), repeat=3):
            out.append(("text", dict(dim=dim, dtype=dt, values=values, invalid=-1, parts=(part, (2,)))))
        out.append(("text", dict(dim=dim, dtype=dt, values=values, invalid=7, parts=((0, 7, 1), (7,), (2, 3)))))
        out.append(("text", dict(dim=dim, dtype=dt, values=values, invalid=0, parts=((0, 7, 1), (0,), (2, 3)))))
    for job_name, i in itertools.product(("ps", "worker"), (0, 1)):
        out.append(("server", dict(mode="train", trainer="ps", n=2, B=(1, 1), E=1, job=job_name, index=i)))
    return out


def run_server(c, t, case):
    """A parameter server joins the cluster it is told of and does no work of a worker."""
    from deepgnn.tf.common.trainer_factory import get_trainer
    d = restore(c)
    cl = F.Cluster(2, True)
    F.begin(c["index"], cl)
    try:
        get_trainer(arguments(c, c["index"], d))
        joined = False
    except F.Joined:
        joined = True
    spec = {"ps": ["p0:1", "p1:1"], "worker": HOSTS[:2]}
    want = [("made", c["job"], c["index"], spec)] + [("join", c["job"], c["index"])] * (c["job"] == "ps")
    t.evals += 1
    t.trans += 1
    if cl.joined != want or joined != (c["job"] == "ps"):
        t.violation("server", "%r: %r, should be %r" % (c, cl.joined, want), case)
    t.state(case)


def run(case, t):
    kind, c = case
    LACKS.clear()
    before = len(t.violations)
    try:
        {"job": run_job, "eager": run_eager, "data": run_data, "text": run_text, "server": run_server}[kind](c, t, case)
    except BaseException as x:
        note(x)
        if not LACKS:
            raise
    if LACKS:
        del t.violations[before:]
        t.count("unsupported: %s" % LACKS[0])
    t.sample(repr(case)[:200])


def fix(c):
    return {k: tuple(tuple(y) if isinstance(y, list) else y for y in v) if isinstance(v, list) else v for k, v in c.items()}


def init():
    H.quiet_logging()
    from deepgnn import get_logger
    get_logger().setLevel(100)
    # first use imports modules, which would make the first schedule special
    for trainer in ("ps", "hvd"):
        for mode in ("train", "evaluate", "inference"):
            c = dict(mode=mode, trainer=trainer, n=1, B=(1,), E=1)
            sched.Execution().run(make(c, {}))


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        t = H.Tally()
        kind, c = json.load(open(sys.argv[2]))["replay"]
        init()
        run((kind, fix(c)), t)
        for k, text, _ in t.violations:
            print("[%s] %s" % (k, text))
        H.cleanup()
        os._exit(1 if t.violations else 0)
    H.scratch()
    H.run_cases(check, run, cases(), case_timeout=300, init=init)
    more = [k for k in check.tally.extra if k.startswith("unsupported")]
    if more:
        print("T02: the stand-in for tensorflow does not have %s" % more)
        H.cleanup()
        sys.exit(3)
    check.finish()


main()
