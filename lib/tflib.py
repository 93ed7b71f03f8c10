"""A small stand-in for tensorflow and horovod.tensorflow.

As in torchlib the variables of a model are the history of its updates.  A tensor is a function of one
run of a session.  Every access to the model directory is a point where another worker may go on.
A call the stand-in does not know raises Unsupported, which is no answer about the property.
"""
import builtins
import glob
import io
import os
import pickle
import sys
import threading

import sched
from torchlib import Missing, Unsupported, World, _Finder, _Meta, _Module  # noqa: F401


class Job(threading.local):
    """What the running thread (a worker of the job) sees."""

    rank = 0
    cluster = None          # the Cluster it is in
    graph = None


job = Job()


class Cluster:
    """The workers of one job and, with parameter servers, the variables they share."""

    def __init__(self, n, shared):
        self.n = n
        self.world = World(n)
        self.shared = Store() if shared else None
        self.ready = threading.Event()
        self.rows = []          # (worker, directory, name, value)
        self.saved = []         # (worker, step, variables) of every checkpoint
        self.reads = []
        self.steps = {i: [] for i in range(n)}
        self.joined = []
        self.left = {}


class Store:
    def __init__(self):
        self.hist = ()
        self.step = 0


class Graph:
    def __init__(self):
        self.own = Store()

    @property
    def store(self):
        return job.cluster.shared or self.own


def begin(rank, cluster):
    job.rank, job.cluster, job.graph = rank, cluster, Graph()
    cluster.world.n = cluster.n


def exchange(kind, value):
    from torchlib import job as tj
    tj.rank = job.rank
    return job.cluster.world.exchange(kind, value)


def point():
    c = sched._cur()
    if c is not None:
        c[0].point(c[1])


# -- graph mode -----------------------------------------------------------------------------------


def lacks(x):
    """What the stand-in does not have, when this is why x was raised."""
    if isinstance(x, Unsupported):
        return str(x) or "a call"
    if isinstance(x, AttributeError) and x.obj is not None:
        owner = x.obj if isinstance(x.obj, type) else type(x.obj)
        if owner.__module__ == __name__ or getattr(x.obj, "__name__", None) == __name__:
            return "%s.%s" % (owner.__name__, x.name)
    if isinstance(x, TypeError) and x.__traceback__ is not None and "argument" in str(x):
        name = str(x).split("(")[0].split(".")[0]
        if getattr(globals().get(name), "__module__", None) == __name__:
            return str(x)
    return None


class OutOfRange(Exception):
    pass


class Tensor:
    def __init__(self, fn):
        self.fn = fn

    def get(self, memo):
        if self not in memo:
            memo[self] = self.fn(memo)
        return memo[self]

    def __add__(self, o):
        return Tensor(lambda m: self.get(m) + (o.get(m) if isinstance(o, Tensor) else o))

    __hash__ = object.__hash__


class Dataset:
    def __init__(self, make):
        self.make = make

    @staticmethod
    def from_generator(gen, output_types=None, output_shapes=None, **k):
        return Dataset(gen)

    def repeat(self, count=None):
        def gen():
            for _ in range(count):
                for x in self.make():
                    yield x
        return Dataset(gen)

    def prefetch(self, n):
        return self

    def __iter__(self):
        return iter(self.make())


class Iterator:
    def __init__(self, ds):
        self.it = iter(ds)

    def get_next(self):
        def pull(m):
            try:
                return next(self.it)
            except StopIteration:
                raise OutOfRange()
        whole = Tensor(pull)
        return (whole,)


def global_step():
    g = job.graph
    return Tensor(lambda m: g.store.step)


def assign(var, value, use_locking=None, **k):
    g = job.graph

    def fn(m):
        g.store.step += 1
        return g.store.step
    return Tensor(fn)


class Optimizer:
    """The optimizer the model of the check is trained with."""

    def gather(self, b):
        return b

    def minimize(self, loss, global_step=None, **k):
        g = job.graph

        def fn(m):
            b = self.gather(loss.get(m))
            point()
            g.store.hist += (b,)
            if global_step is not None:
                g.store.step += 1
            job.cluster.steps[job.rank].append(b)
        return Tensor(fn)


class DistributedOptimizer(Optimizer):
    def __init__(self, opt, *a, **k):
        self.opt = opt

    def gather(self, b):
        return tuple(exchange("reduce", b))


class SessionRunHook:
    def begin(self):
        pass

    def after_create_session(self, session, coord):
        pass

    def ran(self, session, k, memo):
        pass

    def end(self, session):
        pass


class CheckpointSaverHook(SessionRunHook):
    def __init__(self, checkpoint_dir, save_secs=None, save_steps=None, saver=None, checkpoint_basename="model.ckpt",
                 scaffold=None, listeners=None, *a, **k):
        self._checkpoint_dir = checkpoint_dir
        self._save_path = os.path.join(checkpoint_dir, checkpoint_basename)
        self._last = None

    def after_create_session(self, session, coord):
        self._save(session, session.graph.store.step)

    def end(self, session):
        if self._last != session.graph.store.step:
            self._save(session, session.graph.store.step)

    def _save(self, session, step):
        point()
        self._last = step
        os.makedirs(os.path.dirname(self._save_path), exist_ok=True)
        write_checkpoint(os.path.dirname(self._save_path), "%s-%d" % (os.path.basename(self._save_path), step),
                         (session.graph.store.hist, step))
        job.cluster.saved.append((job.rank, step, session.graph.store.hist))
        return True


def write_checkpoint(d, name, value):
    with _open(os.path.join(d, name), "wb") as f:
        pickle.dump(value, f)
    with _open(os.path.join(d, "checkpoint"), "w") as f:
        f.write(name)


def read_checkpoint(d):
    try:
        with _open(os.path.join(d, "checkpoint")) as f:
            name = f.read()
    except OSError:
        return None
    with _open(os.path.join(d, name), "rb") as f:
        return pickle.load(f)


class LoggingTensorHook(SessionRunHook):
    def __init__(self, tensors, every_n_iter=None, **k):
        self.tensors, self.n = tensors, every_n_iter

    def ran(self, session, k, memo):
        if k % self.n == 0:
            for x in self.tensors.values():
                x.get(memo)


class SummarySaverHook(SessionRunHook):
    def __init__(self, save_steps=None, save_secs=None, output_dir=None, summary_writer=None, scaffold=None, summary_op=None):
        self.n, self.writer, self.ops = save_steps, summary_writer, summary_op

    def ran(self, session, k, memo):
        if k % self.n == 0:
            for name, x in self.ops:
                job.cluster.rows.append((job.rank, self.writer.d, name, x.get(memo)))


class ProfilerHook(SessionRunHook):
    def __init__(self, *a, **k):
        pass


class BroadcastHook(SessionRunHook):
    def __init__(self, root_rank=0, *a, **k):
        self.root = root_rank

    def after_create_session(self, session, coord):
        s = session.graph.store
        s.hist, s.step = exchange("broadcast", (s.hist, s.step))[self.root]


class FileWriter:
    def __init__(self, d, *a, **k):
        self.d = os.path.normpath(d)


class Session:
    def __init__(self, master="", is_chief=True, checkpoint_dir=None, scaffold=None, hooks=None, chief_only_hooks=None,
                 save_checkpoint_secs=None, save_checkpoint_steps=None, log_step_count_steps=None, config=None, **k):
        self.graph = job.graph
        self.k = 0
        self.hooks = list(chief_only_hooks or []) * bool(is_chief) + list(hooks or [])
        for h in self.hooks:
            h.begin()
        c = job.cluster
        if is_chief:
            found = read_checkpoint(checkpoint_dir) if checkpoint_dir else None
            if found:
                self.graph.store.hist, self.graph.store.step = found
            c.reads.append((job.rank, found))
            c.ready.set()
        else:
            c.ready.wait()
        for h in self.hooks:
            h.after_create_session(self, None)

    def should_stop(self):
        return False

    def run(self, ops):
        point()
        memo = {}
        out = [o.get(memo) for o in ops]
        for h in self.hooks:
            h.ran(self, self.k, memo)
        self.k += 1
        return out

    def __enter__(self):
        return self

    def __exit__(self, tp, e, tb):
        if tp is not None and tp is not OutOfRange:
            return False
        for h in self.hooks:
            h.end(self)
        return True


class Server:
    target = "server"

    def __init__(self, spec, job_name=None, task_index=None, **k):
        job.cluster.joined.append(("made", job_name, task_index, spec.spec))
        self.me = (job_name, task_index)

    def join(self):
        job.cluster.joined.append(("join",) + self.me)
        raise Joined()


class Joined(Exception):
    """A parameter server serves until it is killed."""


class ClusterSpec:
    def __init__(self, spec):
        self.spec = spec


class _Config:
    def __init__(self, *a, **k):
        self.gpu_options = _Options()
        self.k = k


class _Options:
    pass


# -- keras ----------------------------------------------------------------------------------------


class Callback:
    def __init__(self):
        self.model = None

    def set_model(self, model):
        self.model = model

    def set_params(self, p):
        pass

    def on_epoch_begin(self, epoch, logs=None):
        pass

    def on_epoch_end(self, epoch, logs=None):
        pass

    def on_batch_end(self, batch, logs=None):
        pass

    def on_train_batch_end(self, batch, logs=None):
        self.on_batch_end(batch, logs)

    def on_test_batch_end(self, batch, logs=None):
        pass

    def on_predict_batch_end(self, batch, logs=None):
        pass

    def on_train_begin(self, logs=None):
        pass

    def on_train_end(self, logs=None):
        pass

    def on_test_end(self, logs=None):
        pass


class LambdaCallback(Callback):
    def __init__(self, **fns):
        super().__init__()
        for n, f in fns.items():
            if not hasattr(Callback, n):
                raise Unsupported(n)
            setattr(self, n, f)


class ModelCheckpoint(Callback):
    def __init__(self, filepath, *a, **k):
        super().__init__()
        if a or k:
            raise Unsupported("ModelCheckpoint options")
        self.path = filepath

    def on_epoch_end(self, epoch, logs=None):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        with _open(self.path, "wb") as f:
            pickle.dump(self.model.hist, f)
        job.cluster.saved.append((job.rank, epoch, self.model.hist))


class TensorBoard(Callback):
    def __init__(self, log_dir=None, **k):
        super().__init__()


class KerasBroadcast(Callback):
    def __init__(self, root_rank=0):
        super().__init__()
        self.root = root_rank

    def on_train_begin(self, logs=None):
        self.model.hist = exchange("broadcast", self.model.hist)[self.root]


class Model:
    """A keras model whose weights are the batches it was fitted to."""

    trainable_variables = ()
    variables = ()

    def __init__(self):
        self.hist = ()
        self.tested = []

    def compile(self, optimizer=None, loss=None, metrics=None, **k):
        self.compiled = (optimizer, loss, metrics)

    def load_weights(self, path, **k):
        with _open(path, "rb") as f:
            self.hist = pickle.load(f)

    def _batches(self, data, steps):
        it = iter(data)
        k = 0
        while steps is None or k < steps:
            try:
                yield k, next(it)
            except StopIteration:
                return
            k += 1

    def fit(self, data, epochs=1, callbacks=(), verbose=None, steps_per_epoch=None, **k):
        if k:
            raise Unsupported("fit %r" % sorted(k))
        for c in callbacks:
            c.set_model(self)
        for c in callbacks:
            c.on_train_begin({})
        it = iter(data)
        for e in range(epochs):
            for c in callbacks:
                c.on_epoch_begin(e)
            if steps_per_epoch is None:
                it = iter(data)
            for i, b in self._batches(it, steps_per_epoch):
                point()
                self.hist += (self.optimizer.gather(b),)
                for c in callbacks:
                    c.on_train_batch_end(i, {"loss": float(b)})
            for c in callbacks:
                c.on_epoch_end(e, {})
        for c in callbacks:
            c.on_train_end({})

    def evaluate(self, data, callbacks=(), verbose=None, steps=None, **k):
        if k:
            raise Unsupported("evaluate %r" % sorted(k))
        for c in callbacks:
            c.set_model(self)
        for i, b in self._batches(data, steps):
            point()
            self.tested.append(b)
            for c in callbacks:
                c.on_test_batch_end(i, {"loss": float(b)})
        for c in callbacks:
            c.on_test_end({})

    def predict(self, data, callbacks=(), verbose=None, steps=None, **k):
        if k:
            raise Unsupported("predict %r" % sorted(k))
        for c in callbacks:
            c.set_model(self)
        for i, b in self._batches(data, steps):
            point()
            self.tested.append(b)
            for c in callbacks:
                c.on_predict_batch_end(i, {"outputs": self.outputs(b)})


class _EventWriter:
    def __init__(self, d):
        self.d = os.path.normpath(d)
        self.open = True

    def as_default(self):
        return self

    def __enter__(self):
        job.writer = self

    def __exit__(self, *a):
        job.writer = None

    def close(self):
        self.open = False


def _scalar2(name, value, step=None):
    if not job.writer.open:
        raise ValueError("summary writer is closed")
    job.cluster.rows.append((job.rank, job.writer.d, name, value))


# -- the model directory --------------------------------------------------------------------------
ROOT = [None]
_open = builtins.open
_real = {"exists": os.path.exists, "isfile": os.path.isfile, "remove": os.remove, "unlink": os.unlink, "listdir": os.listdir,
         "rename": os.rename, "replace": os.replace}
_glob = glob.glob


def mine(p):
    try:
        return ROOT[0] is not None and os.path.normpath(os.fspath(p)).startswith(ROOT[0])
    except TypeError:
        return False


def _wrap(n):
    f = _real[n]

    def g(path=".", *a, **k):
        if mine(path):
            point()
        return f(path, *a, **k)
    return g


def _vopen(file, mode="r", *a, **k):
    if not isinstance(file, int) and mine(file):
        point()
    return _open(file, mode, *a, **k)


def _vglob(path, *a, **k):
    point()
    return _glob(path, *a, **k)


class _Any:
    def __init__(self, *a, **k):
        pass


V1 = "tensorflow.compat.v1."
NOP = staticmethod(lambda *a, **k: None).__func__
EXPORTS = {
    "tensorflow": dict(Tensor=Tensor, __version__="2.9", TensorShape=lambda x: tuple(x),
                       convert_to_tensor=lambda x: x, device=_Any),
    "tensorflow.compat": {}, "tensorflow.compat.v1": dict(
        disable_v2_behavior=NOP, set_random_seed=NOP, device=_Any, assign=assign, ConfigProto=_Config, local_variables=lambda: [],
        global_variables=lambda: [], trainable_variables=lambda: [], reset_default_graph=NOP),
    V1 + "logging": dict(info=NOP, set_verbosity=NOP, INFO=1), V1 + "train": dict(
        replica_device_setter=NOP, get_or_create_global_step=global_step, MonitoredTrainingSession=Session, Optimizer=Optimizer),
    V1 + "data": dict(make_one_shot_iterator=Iterator),
    V1 + "summary": dict(scalar=lambda name, tensor: (name, tensor), FileWriter=FileWriter),
    "tensorflow.data": dict(Dataset=Dataset, Iterator=Iterator), "tensorflow.io": {},
    "tensorflow.io.gfile": dict(GFile=lambda p, m="r": builtins.open(p, m)),
    "tensorflow.estimator": dict(SessionRunHook=SessionRunHook, CheckpointSaverHook=CheckpointSaverHook,
                                 LoggingTensorHook=LoggingTensorHook, SummarySaverHook=SummarySaverHook, ProfilerHook=ProfilerHook),
    "tensorflow.train": dict(ClusterSpec=ClusterSpec), "tensorflow.distribute": dict(Server=Server),
    "tensorflow.random": dict(set_seed=NOP), "tensorflow.config": dict(set_visible_devices=NOP, get_visible_devices=lambda: []),
    "tensorflow.config.experimental": dict(list_physical_devices=lambda k: [], set_memory_growth=NOP, set_visible_devices=NOP),
    "tensorflow.summary": dict(create_file_writer=_EventWriter, scalar=_scalar2),
    "tensorflow.keras": dict(Model=Model), "tensorflow.keras.callbacks": dict(
        Callback=Callback, LambdaCallback=LambdaCallback, ModelCheckpoint=ModelCheckpoint, TensorBoard=TensorBoard),
    "tensorflow.keras.optimizers": {}, "tensorflow.keras.losses": {}, "tensorflow.keras.metrics": {},
    "horovod": {}, "horovod.tensorflow": dict(
        init=NOP, rank=lambda: job.rank, size=lambda: job.cluster.n, local_rank=lambda: job.rank,
        DistributedOptimizer=DistributedOptimizer, BroadcastGlobalVariablesHook=BroadcastHook),
    "horovod.tensorflow.keras": dict(init=NOP, rank=lambda: job.rank, size=lambda: job.cluster.n, local_rank=lambda: job.rank),
    "horovod.tensorflow.keras.callbacks": dict(BroadcastGlobalVariablesCallback=KerasBroadcast),
}


class _TfFinder(_Finder):
    ROOTS = ("tensorflow", "horovod")

    def exec_module(self, module):
        for k, v in EXPORTS.get(module.__name__, {}).items():
            setattr(module, k, v)


def install():
    sys.meta_path.insert(0, _TfFinder())
    for n in EXPORTS:
        __import__(n)
    builtins.open = _vopen
    io.open = _vopen
    for n in _real:
        setattr(os.path if n in ("exists", "isfile") else os, n, _wrap(n))
    glob.glob = _vglob
