"""A small stand-in for torch and horovod, and a disk whose writer can be killed.

The trainers of the repository are run as they are; what they get for torch keeps, in place of the
numbers of a model, the history of the updates that made them, so that two models are equal only if
they were trained with the same batches in the same order with the same learning rates.  A call the
stand-in does not know raises Unsupported, which is no answer about the property.
"""
import builtins
import copy
import importlib.abc
import importlib.machinery
import io
import os
import pickle
import sys
import threading
import types

import numpy as np


class Unsupported(BaseException):
    """The code uses something the stand-in does not have."""


# ---------------------------------------------------------------------------------------------
# anything not written out below


class _Meta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = _Meta(name, (Missing,), {})
        setattr(cls, name, v)
        return v

    def __or__(cls, other):
        return object

    __ror__ = __or__


class Missing(metaclass=_Meta):
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        raise Unsupported(type(self).__name__)

    def __class_getitem__(cls, item):
        return cls


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = self.__name__ + "." + name
        if full in sys.modules:
            return sys.modules[full]
        v = _Meta(name, (Missing,), {})
        setattr(self, name, v)
        return v


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    ROOTS = ("torch", "horovod", "transformers")

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.ROOTS:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = _Module(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        for k, v in EXPORTS.get(module.__name__, {}).items():
            setattr(module, k, v)


# ---------------------------------------------------------------------------------------------
# ranks


class Job(threading.local):
    """What the running thread (a rank of the job) sees."""

    rank = 0
    world = None
    grad = True
    worker = None


job = Job()


class World:
    """Collective operations of n ranks; a rank waits until all the others have come."""

    def __init__(self, n):
        self.n = n
        self.cond = threading.Condition()
        self.gen = 0
        self.got = {}
        self.out = {}
        self.kinds = []

    def exchange(self, kind, value):
        with self.cond:
            g = self.gen
            self.got[job.rank] = (kind, value)
            if len(self.got) == self.n:
                kinds = {k for k, _ in self.got.values()}
                if len(kinds) > 1:
                    self.kinds.append(sorted(kinds))
                self.out[g] = [self.got[r][1] for r in range(self.n)]
                self.got = {}
                self.gen += 1
                self.cond.notify_all()
            else:
                while self.gen == g:
                    self.cond.wait()
            return self.out[g]


def exchange(kind, value):
    return job.world.exchange(kind, value) if job.world is not None else [value]


# ---------------------------------------------------------------------------------------------
# tensors


def _v(x):
    return x.v if isinstance(x, Tensor) else x


class Tensor:
    device = "cpu"

    def __init__(self, v=(), src=None):
        self.v = np.asarray(_v(v))
        self.src = src

    def _new(self, v):
        t = Tensor(v, self.src)
        t.device = self.device
        return t

    data = property(lambda s: s._new(s.v))
    shape = property(lambda s: s.v.shape)
    ndim = property(lambda s: s.v.ndim)
    dtype = property(lambda s: s.v.dtype)
    T = property(lambda s: s._new(s.v.T))
    requires_grad = False

    def item(self):
        return self.v.item()

    def tolist(self):
        return self.v.tolist()

    def numpy(self):
        return self.v

    def cpu(self):
        t = self._new(self.v)
        t.device = "cpu"
        return t

    def cuda(self, *a, **k):
        t = self._new(self.v)
        t.device = "cuda"
        return t

    def to(self, *a, **k):
        return self._new(self.v)

    def detach(self):
        return Tensor(self.v)

    def clone(self):
        return self._new(self.v.copy())

    def type(self, dtype=None):
        return self._new(self.v.astype(dtype) if isinstance(dtype, (np.dtype, type)) and not issubclass(
            dtype if isinstance(dtype, type) else object, Missing) else self.v)

    def float(self):
        return self._new(self.v.astype(np.float32))

    def double(self):
        return self._new(self.v.astype(np.float64))

    def long(self):
        return self._new(self.v.astype(np.int64))

    def size(self, d=None):
        return self.v.shape if d is None else self.v.shape[d]

    def dim(self):
        return self.v.ndim

    def nelement(self):
        return self.v.size

    numel = nelement

    def squeeze(self, d=None):
        if d is not None and self.v.shape[d] != 1:
            return self._new(self.v)
        return self._new(self.v.squeeze(d))

    def unsqueeze(self, d):
        return self._new(np.expand_dims(self.v, d))

    def reshape(self, *s):
        return self._new(self.v.reshape(*s))

    view = reshape

    def mean(self, *a, **k):
        return self._new(self.v.mean(*a))

    def sum(self, *a, **k):
        return self._new(self.v.sum(*a))

    def backward(self):
        if self.src is None:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        self.src.backward()

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self._new(self.v[_v(i)])

    def __iter__(self):
        return (self._new(x) for x in self.v)

    def __float__(self):
        return float(self.v)

    def __int__(self):
        return int(self.v)

    def __bool__(self):
        return bool(self.v)

    def __format__(self, spec):
        return format(self.v.item() if self.v.ndim == 0 else str(self.v), spec)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Tensor." + name)


for _n in ("add", "sub", "mul", "truediv", "radd", "rsub", "rmul", "rtruediv", "eq", "ne", "lt", "le", "gt", "ge",
           "neg", "pow"):
    def _op(self, *o, _n="__%s__" % _n):
        return self._new(getattr(self.v, _n)(*[np.asarray(_v(x)) for x in o]))
    setattr(Tensor, "__%s__" % _n, _op)
Tensor.__hash__ = object.__hash__


class Parameter(Tensor):
    """The value of a parameter is the sequence of updates applied to it."""

    requires_grad = True

    def __init__(self, v=(), requires_grad=True):
        self.hist = tuple(v)
        self.grad = None
        self.scaled = False
        self.src = None

    v = property(lambda s: np.asarray(float(len(s.hist))))
    data = property(lambda s: s)

    def __reduce__(self):
        return (Parameter, (self.hist,))

    def clone(self):
        return Parameter(self.hist)

    def detach(self):
        return self

    def cpu(self):
        return self

    def cuda(self, *a, **k):
        return self

    def copy_(self, o):
        self.hist = o.hist
        return self


class Source:
    """Where a loss comes from: which parameters and which batch."""

    def __init__(self, params, batch, gather=False, scaled=False):
        self.params, self.batch, self.gather, self.scaled = params, batch, gather, scaled

    def backward(self):
        if not job.grad:
            raise RuntimeError("does not require grad")
        got = exchange("gradient", self.batch) if self.gather else [self.batch]
        for p in self.params:
            p.grad = (p.grad or ()) + tuple(got)
            p.scaled = self.scaled


class Module:
    def __init__(self, *a, **k):
        self.training = True
        self.where = "cpu"

    def _named(self, prefix=""):
        for k, x in vars(self).items():
            if isinstance(x, Parameter):
                yield prefix + k, x
            elif isinstance(x, Module):
                yield from x._named(prefix + k + ".")

    def _children(self):
        return [x for x in vars(self).values() if isinstance(x, Module)]

    def named_parameters(self, *a, **k):
        return list(self._named())

    def parameters(self, *a, **k):
        return [p for _, p in self._named()]

    def state_dict(self, *a, **k):
        return dict(self._named())

    def load_state_dict(self, sd, strict=True, **k):
        own = dict(self._named())
        if set(own) != set(sd):
            raise RuntimeError("Error(s) in loading state_dict: %s, %s" % (sorted(own), sorted(sd)))
        for n, p in own.items():
            p.copy_(sd[n])

    def train(self, mode=True):
        self.training = mode
        for c in self._children():
            c.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def cuda(self, *a, **k):
        self.where = "cuda"
        for c in self._children():
            c.cuda()
        return self

    def cpu(self):
        self.where = "cpu"
        return self

    def to(self, *a, **k):
        return self

    def __call__(self, *a, **k):
        return self.forward(*a, **k)


class DistributedDataParallel(Module):
    def __init__(self, module, *a, **k):
        super().__init__()
        self.module = module

    def forward(self, *a, **k):
        out = self.module(*a, **k)
        for t in out if isinstance(out, tuple) else (out,):
            if isinstance(t, Tensor) and t.src is not None:
                t.src.gather = True
        return out


# ---------------------------------------------------------------------------------------------
# optimizers


class Optimizer:
    def __init__(self, params, defaults=None, lr=None):
        self.defaults = dict(defaults or {"lr": lr})
        self.param_groups = [dict(self.defaults, params=list(params))]

    def zero_grad(self, set_to_none=True):
        for g in self.param_groups:
            for p in g["params"]:
                p.grad = None

    def _gather(self, p):
        return p.grad

    def step(self, closure=None):
        for g in self.param_groups:
            for p in g["params"]:
                if p.grad is not None:
                    if p.scaled:
                        p.grad += ("scaled",)
                    p.hist += ((self._gather(p), round(float(g["lr"]), 9)),)

    def state_dict(self):
        return {"param_groups": [{k: x for k, x in g.items() if k != "params"} for g in self.param_groups]}

    def load_state_dict(self, sd):
        for g, s in zip(self.param_groups, sd["param_groups"]):
            g.update(s)


class SGD(Optimizer):
    def __init__(self, params, lr=0.01):
        super().__init__(params, {"lr": lr})


class LambdaLR:
    def __init__(self, optimizer, lr_lambda, last_epoch=-1, verbose=False):
        self.optimizer, self.fn, self.last_epoch = optimizer, lr_lambda, last_epoch
        for i, g in enumerate(optimizer.param_groups):
            if last_epoch == -1:
                g.setdefault("initial_lr", g["lr"])
            elif "initial_lr" not in g:
                raise KeyError("param 'initial_lr' is not specified in param_groups[%d] when resuming an optimizer" % i)
        self.base = [g["initial_lr"] for g in optimizer.param_groups]
        self.step()

    def step(self, epoch=None):
        self.last_epoch = self.last_epoch + 1 if epoch is None else epoch
        for g, b in zip(self.optimizer.param_groups, self.base):
            g["lr"] = b * self.fn(self.last_epoch)

    def get_last_lr(self):
        return [g["lr"] for g in self.optimizer.param_groups]

    def state_dict(self):
        return {"last_epoch": self.last_epoch}

    def load_state_dict(self, sd):
        self.last_epoch = sd["last_epoch"]
        for g, b in zip(self.optimizer.param_groups, self.base):
            g["lr"] = b * self.fn(self.last_epoch)


class DistributedOptimizer(Optimizer):
    def __init__(self, optimizer, named_parameters=None, compression=None, op=None, **k):
        self.inner = optimizer
        self.defaults = optimizer.defaults
        self.param_groups = optimizer.param_groups
        self.skip = False

    def synchronize(self):
        for g in self.param_groups:
            for p in g["params"]:
                if p.grad is not None:
                    p.grad = sum(exchange("gradient", p.grad), ())

    def skip_synchronize(self):
        opt = self

        class C:
            def __enter__(self):
                opt.skip = True

            def __exit__(self, *a):
                opt.skip = False
        return C()

    def step(self, closure=None):
        if not self.skip:
            self.synchronize()
        super().step()


class GradScaler:
    def __init__(self, *a, **k):
        self.unscaled = False

    def scale(self, loss):
        loss.src.scaled = True
        return loss

    def unscale_(self, optimizer):
        for g in optimizer.param_groups:
            for p in g["params"]:
                p.scaled = False

    def step(self, optimizer, *a):
        self.unscale_(optimizer)
        optimizer.step()

    def update(self):
        pass


def clip_grad_norm_(params, norm, *a, **k):
    for p in params:
        if p.grad is not None:
            p.grad += (("clip", norm) + (("scaled",) if p.scaled else ()),)


class no_grad:
    def __enter__(self):
        self.old, job.grad = job.grad, False

    def __exit__(self, *a):
        job.grad = self.old

    def __call__(self, fn):
        def f(*a, **k):
            with no_grad():
                return fn(*a, **k)
        return f


class _ctx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ---------------------------------------------------------------------------------------------
# the disk


class Disk:
    """A directory; what a kill of the process leaves is what is there before each change of it."""

    root = None
    hook = None         # called before every change
    n = 0
    clock = 0
    log = []

    @classmethod
    def start(cls, root, hook=None):
        cls.root, cls.hook, cls.n, cls.log = root, hook, 0, []

    @classmethod
    def event(cls, what, path):
        if job.rank:
            cls.log.append((job.rank, what))
        cls.n += 1
        if cls.hook is not None:
            cls.hook()

    @classmethod
    def mine(cls, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        return cls.root is not None and isinstance(p, str) and p.startswith(cls.root + os.sep)

    @classmethod
    def touch(cls, path):
        cls.clock += 1
        os.utime(path, (1000000 + cls.clock * 10,) * 2)


class _File:
    """A file of the disk open for writing; what is written may be cut anywhere in the middle."""

    def __init__(self, f, path):
        self.__dict__.update(f=f, path=path)

    def write(self, b):
        Disk.event("write", self.path)
        h = len(b) // 2
        self.f.write(b[:h])
        self.f.flush()
        Disk.event("write", self.path)
        self.f.write(b[h:])
        self.f.flush()
        Disk.touch(self.path)
        return len(b)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, n):
        return getattr(self.f, n)


_open = builtins.open
_os = {n: getattr(os, n) for n in ("remove", "unlink", "replace", "rename", "rmdir", "link", "symlink", "truncate")}


def _vopen(file, mode="r", *a, **k):
    if set(mode) & set("wax+") and not isinstance(file, int) and Disk.mine(file):
        Disk.event("open", file)
        f = _open(file, mode, *a, **k)
        if "b" in mode and "w" in mode:
            Disk.touch(file)
            return _File(f, file)
        return f
    return _open(file, mode, *a, **k)


def _wrap(n):
    def f(path, *a, **k):
        if Disk.mine(path) or (a and Disk.mine(a[0])):
            Disk.event(n, path)
        return _os[n](path, *a, **k)
    return f


def save(obj, f, *a, **k):
    b = pickle.dumps(obj)
    if hasattr(f, "write"):
        f.write(b)
    else:
        with _vopen(f, "wb") as g:
            g.write(b)


def load(f, map_location=None, **k):
    if hasattr(f, "read"):
        return pickle.load(f)
    with _open(f, "rb") as g:
        return pickle.load(g)


# ---------------------------------------------------------------------------------------------
# loading of data


class IterableDataset:
    pass


class _Info:
    def __init__(self, i, n, d):
        self.id, self.num_workers, self.dataset, self.seed = i, n, d, i


class DataLoader:
    """One sample per batch; the workers are asked in turn."""

    def __init__(self, dataset, num_workers=0, prefetch_factor=2, **k):
        self.dataset, self.num_workers = dataset, num_workers

    def _pull(self, it, info):
        old, job.worker = job.worker, info
        try:
            return next(it)
        finally:
            job.worker = old

    def __iter__(self):
        if not self.num_workers:
            return iter(self.dataset)
        its = []
        for i in range(self.num_workers):
            d = copy.copy(self.dataset)
            d.__dict__ = {k: dict(x) if isinstance(x, dict) else x for k, x in self.dataset.__dict__.items()}
            info = _Info(i, self.num_workers, d)
            old, job.worker = job.worker, info
            try:
                its.append((iter(d), info))
            finally:
                job.worker = old
        return self._turns(its)

    def _turns(self, its):
        while its:
            left = []
            for it, info in its:
                try:
                    x = self._pull(it, info)
                except StopIteration:
                    continue
                left.append((it, info))
                yield x
            its = left


class SummaryWriter:
    rows = []

    def __init__(self, *a, **k):
        pass

    def add_scalar(self, tag, value, step=None, *a, **k):
        SummaryWriter.rows.append((job.rank, tag, float(_v(value)), step))

    def close(self):
        pass

    flush = close


# ---------------------------------------------------------------------------------------------
# torch.distributed and horovod


class _Vector:
    def __init__(self, hists):
        self.hists = hists


def _to_vector(params):
    return _Vector([p.hist for p in params])


def _from_vector(vec, params):
    for p, h in zip(params, vec.hists):
        p.hist = h


def _broadcast(t, src=0, *a, **k):
    got = exchange("broadcast", t.hists if isinstance(t, _Vector) else t.hist)[src]
    if isinstance(t, _Vector):
        t.hists = list(got)
    else:
        t.hist = got


def _all_reduce(t, op=None, *a, **k):
    t.v = np.asarray(sum(np.asarray(x, dtype=float) for x in exchange("reduce", t.v)))


def _hvd_reduce(t, *a, **k):
    xs = exchange("reduce", t.v)
    return Tensor(sum(np.asarray(x, dtype=float) for x in xs) / len(xs))


def _hvd_broadcast(sd, root_rank=0):
    for n in sorted(sd):
        _broadcast(sd[n], root_rank)


def _size():
    return job.world.n if job.world else 1


class _Red:
    SUM = "sum"


class _Comp:
    fp16 = none = None


def _cat(xs, d=0):
    return Tensor(np.concatenate([x.v for x in xs], d) if xs else np.zeros(0))


EXPORTS = {
    "torch": dict(Tensor=Tensor, save=save, load=load, no_grad=no_grad, cat=_cat, inference_mode=no_grad,
                  tensor=lambda v, dtype=None, **k: Tensor(v), as_tensor=lambda v, **k: Tensor(v),
                  unsqueeze=lambda t, d: t.unsqueeze(d), squeeze=lambda t, *d: t.squeeze(*d),
                  mean=lambda t: t.mean(), float32=np.dtype("float32"), float64=np.dtype("float64"),
                  int64=np.dtype("int64"), __version__="1.13.0"),
    "torch.nn": dict(Module=Module, Parameter=Parameter),
    "torch.nn.parallel": dict(DistributedDataParallel=DistributedDataParallel),
    "torch.nn.utils": dict(clip_grad_norm_=clip_grad_norm_, parameters_to_vector=_to_vector,
                           vector_to_parameters=_from_vector),
    "torch.optim": dict(Optimizer=Optimizer, SGD=SGD),
    "torch.optim.lr_scheduler": dict(LambdaLR=LambdaLR),
    "torch.utils.tensorboard": dict(SummaryWriter=SummaryWriter),
    "torch.utils.data": dict(IterableDataset=IterableDataset, DataLoader=DataLoader,
                             get_worker_info=lambda: job.worker),
    "torch.cuda": dict(set_device=lambda *a: None, memory_allocated=lambda *a: 0, max_memory_allocated=lambda *a: 0,
                       memory_reserved=lambda *a: 0, max_memory_reserved=lambda *a: 0, is_available=lambda: True),
    "torch.cuda.amp": dict(GradScaler=GradScaler, autocast=_ctx),
    "torch.distributed": dict(init_process_group=lambda *a, **k: None, destroy_process_group=lambda *a, **k: None,
                              get_rank=lambda *a: job.rank, get_world_size=lambda *a: _size(),
                              broadcast=_broadcast, all_reduce=_all_reduce, ReduceOp=_Red,
                              barrier=lambda *a, **k: exchange("barrier", 0), is_initialized=lambda: True),
    "horovod.torch": dict(init=lambda: None, rank=lambda: job.rank, local_rank=lambda: job.rank, size=_size,
                          allreduce=_hvd_reduce, broadcast_parameters=_hvd_broadcast,
                          broadcast_optimizer_state=lambda *a, **k: exchange("broadcast", 0), Compression=_Comp,
                          Average="average", DistributedOptimizer=DistributedOptimizer,
                          join=lambda *a: exchange("join", 0)),
}


def install():
    sys.meta_path.insert(0, _Finder())
    for n in list(EXPORTS):
        __import__(n)
    import torch
    import torch.nn.functional  # noqa: F401
    builtins.open = _vopen
    io.open = _vopen
    for n in _os:
        setattr(os, n, _wrap(n))
