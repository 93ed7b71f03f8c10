"""Controlled scheduler: runs real threads one at a time and enumerates schedules.

install() replaces the blocking primitives of the standard library with versions that behave as
usual in ordinary threads and are scheduled cooperatively in managed threads.  It has to be called
before the code under test is imported.  Time is virtual inside managed threads.
"""
import _thread
import copy
import gc
import os
import queue
import random
import sys
import threading
import time
import traceback

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_getpid = os.getpid
_real_sleep = time.sleep
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_RealThread = threading.Thread
_tls = threading.local()
_get_ident = _thread.get_ident


class Abort(BaseException):
    """Raised inside managed threads to end an execution early."""


class Replay(Exception):
    """A replayed execution did not follow its script."""


class _T:
    __slots__ = ("tid", "name", "gate", "done", "pred", "deadline", "timed_out", "daemon", "exc", "group", "pseudo")

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.daemon = False
        self.exc = None
        self.group = None
        self.pseudo = False


_by_ident = {}


def _cur():
    return _by_ident.get(_get_ident())


class Execution:
    """One controlled execution following a script of choices."""

    def __init__(self, script=(), bound=2, mode="preempt", max_steps=20000, line_files=None, granularity="sync",
                 time_choice=True, freeze=5.0):
        self.freeze = freeze     # mode "freeze": how long (virtual) a thread may be suspended at any point
        self.script = list(script)
        self.bound = bound
        self.mode = mode
        self.max_steps = max_steps
        self.line_prefix = line_files
        self.granularity = granularity
        self.time_choice = time_choice
        self.threads = []
        self.now = 1000.0
        self.trace = []          # (n_options, chosen, costs)
        self.steps = 0
        self.switches = 0
        self.aborting = False
        self.outcome = None      # None | 'hang' | 'steps' | 'stopped'
        self.blocked_info = None
        self.current = None
        self.finished = _real_lock()
        self.finished.acquire()
        self.result = None
        self.error = None
        self.thread_errors = []
        self.log = []
        self.main_done = False
        self.children = {}       # process -> processes it started
        self.exited = set()
        self.fair = 80           # a spinning thread gives way after this many steps
        self.streak = 0
        self.hashes = 0

    # -- thread management -------------------------------------------------
    def new_thread(self, name):
        t = _T(len(self.threads), name)
        self.threads.append(t)
        return t

    def run(self, fn):
        main = self.new_thread("main")

        me = CThread(name="MainThread", daemon=False)
        me._managed = (self, main)

        def body():
            ident = _get_ident()
            me._ident = ident
            threading._active[ident] = me
            try:
                try:
                    self.result = fn()
                except Abort:
                    raise
                except BaseException as e:  # noqa
                    self.error = e
                self.main_done = True
                _interpreter_exit()
            finally:
                threading._active.pop(ident, None)
        gc_was = gc.isenabled()
        gc.disable()
        try:
            self._launch(main, body)
            self.current = main
            main.gate.release()
            self.finished.acquire()
        finally:
            if gc_was:
                gc.enable()
        return self

    def _launch(self, t, body):
        def tramp():
            nonlocal body
            ident = _get_ident()
            t.gate.acquire()
            _by_ident[ident] = (self, t)
            if self.line_prefix is not None:
                sys.settrace(self._tracer)
            try:
                if not self.aborting:
                    body()
            except Abort:
                pass
            except BaseException as e:  # noqa
                t.exc = e
            finally:
                # objects owned by this thread die while it is still scheduled
                try:
                    body = None
                except Abort:
                    pass
                sys.settrace(None)
                self._exit(t, ident)
        _real_start(tramp, ())

    def _exit(self, t, ident):
        t.done = True
        _by_ident.pop(ident, None)
        if all(x.done for x in self.threads):
            self.finished.release()
            return
        if self.aborting:
            # hand over to any thread still alive so that it unwinds
            for x in self.threads:
                if not x.done:
                    self.current = x
                    x.gate.release()
                    return
        if self._only_daemons():
            self._abort_from_exit()
            return
        nxt = self._choose(None)
        if nxt is None:
            self._abort_from_exit()
            return
        self.current = nxt
        nxt.gate.release()

    def _only_daemons(self):
        return self.main_done and all(x.done or x.daemon for x in self.threads)

    def _abort_from_exit(self):
        self.aborting = True
        for x in self.threads:
            if not x.done:
                self.current = x
                x.gate.release()
                return

    # -- scheduling --------------------------------------------------------
    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.line_prefix):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            c = _cur()
            if c is not None:
                self.point(c[1])
        return self._local

    def _enabled(self, x):
        if x.done:
            return False
        if x.pred is None:
            return True
        if x.pred():
            return True
        if x.deadline is not None and x.deadline <= self.now:
            return True
        return False

    def _choose(self, cur):
        """Pick the next thread; cur is the running thread if it may continue."""
        self.steps += 1
        if self.steps > self.max_steps:
            self.outcome = "steps"
            return None
        n = len(self.threads)
        start = (self.current.tid if self.current is not None else 0)
        order = [self.threads[(start + i) % n] for i in range(n)]
        run = [x for x in order if self._enabled(x)]
        timed = sorted((x for x in order if not x.done and x not in run and x.deadline is not None),
                       key=lambda x: (x.deadline, x.tid))
        if not run and not timed:
            self.outcome = self.outcome or "hang"
            self.blocked_info = [(x.name, self._where(x)) for x in self.threads if not x.done]
            return None
        cur_ok = cur is not None and cur in run
        if cur_ok:
            self.streak += 1
            if self.streak > self.fair and (len(run) > 1 or timed):
                # fairness: a thread that never blocks has to let the others run
                self.streak = 0
                run.remove(cur)
                run.append(cur)
                cur_ok = False
                if len(run) == 1:
                    self.now = max(self.now, timed[0].deadline)
                    run = [timed[0], cur]
                    timed = timed[1:]
        else:
            self.streak = 0
        opts = []
        if cur_ok:
            opts.append((cur, 0, False))
            for x in run:
                if x is not cur:
                    opts.append((x, 1, False))
        else:
            for i, x in enumerate(run):
                opts.append((x, 0 if (self.mode == "preempt" or i == 0) else 1, False))
        if run and self.mode == "freeze":
            opts = opts[:1]
        if run:
            if self.time_choice and self.mode != "freeze":
                for x in timed:
                    opts.append((x, 1, True))
        else:
            # nobody else can run: the earliest deadlines fire; ties in any order
            d = timed[0].deadline
            opts = [(x, 0 if (self.mode == "preempt" or i == 0) else 1, True)
                    for i, x in enumerate(x for x in timed if x.deadline == d)]
            if self.mode == "freeze":
                opts = opts[:1]
            if self.time_choice and self.mode != "freeze":
                opts += [(x, 1, True) for x in timed if x.deadline != d]
        if len(opts) == 1:
            x, _, tmo = opts[0]
        else:
            i = len(self.trace)
            c = self.script[i] if i < len(self.script) else 0
            if c >= len(opts):
                self.outcome = "replay-mismatch"
                return None
            self.trace.append((len(opts), c, tuple(o[1] for o in opts)))
            x, _, tmo = opts[c]
        if tmo:
            self.now = max(self.now, x.deadline)
        return x

    def _where(self, x):
        for ident, (s, t) in list(_by_ident.items()):
            if t is x:
                f = sys._current_frames().get(ident)
                out = []
                while f is not None:
                    fn = f.f_code.co_filename
                    if not fn.endswith("sched.py"):
                        out.append("%s:%d" % (os.path.basename(fn), f.f_lineno))
                    f = f.f_back
                return " < ".join(out[:6])
        return "?"

    def _switch(self, t, nxt):
        if nxt is None:
            self.aborting = True
            raise Abort()
        if nxt is not t:
            self.switches += 1
            self.current = nxt
            nxt.gate.release()
            t.gate.acquire()
            if self.aborting:
                raise Abort()

    def point(self, t):
        if self.aborting:
            raise Abort()
        if self.mode == "freeze":
            self._maybe_freeze(t)
            return
        self._switch(t, self._choose(t))

    def _maybe_freeze(self, t):
        """A slow thread: suspended here for a while, the others go on (or it just continues)."""
        self.steps += 1
        if self.steps > self.max_steps:
            self.outcome = "steps"
            self.aborting = True
            raise Abort()
        if all(x is t or x.done for x in self.threads):
            return
        i = len(self.trace)
        c = self.script[i] if i < len(self.script) else 0
        self.trace.append((2, c, (0, 1)))
        if c:
            end = self.now + self.freeze
            self.block(t, lambda: self.now >= end, self.freeze)

    def block(self, t, pred, timeout=None):
        """Block until pred() holds; returns False on (virtual) timeout."""
        if self.aborting:
            raise Abort()
        t.pred = pred
        t.deadline = None if timeout is None else self.now + max(0.0, timeout)
        try:
            self._switch(t, self._choose(None) if not self._enabled(t) else self._choose(t))
            return pred()
        finally:
            t.pred = None
            t.deadline = None

    def stop(self, why="stopped"):
        """End the execution from inside a managed thread."""
        self.outcome = why
        self.aborting = True
        raise Abort()


def _interpreter_exit():
    """What the interpreter does for thread pools when the main thread ends."""
    import concurrent.futures.thread as cft
    items = [(t, q) for t, q in list(cft._threads_queues.items())
             if getattr(t, "_managed", None) is not None and not t._managed[1].done]
    if not items:
        return
    cft._shutdown = True
    try:
        for _, q in items:
            q.put(None)
        for t, _ in items:
            t.join()
    finally:
        cft._shutdown = False


class CLock:
    """Lock: cooperative in managed threads, a plain lock elsewhere."""

    def __init__(self):
        self._r = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        c = _cur()
        if c is None:
            return self._r.acquire(blocking, timeout)
        s, t = c
        if s.aborting:
            raise Abort()
        if s.granularity != "process":
            s.point(t)
        if self._r.acquire(False):
            return True
        if not blocking:
            return False
        tmo = None if timeout is None or timeout < 0 else timeout
        end = None if tmo is None else s.now + tmo
        while True:
            left = None if end is None else end - s.now
            ok = s.block(t, lambda: not self._r.locked(), left)
            if ok and self._r.acquire(False):
                return True
            if end is not None and s.now >= end:
                return self._r.acquire(False)

    def release(self):
        self._r.release()

    def locked(self):
        return self._r.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self._r.release()

    def _at_fork_reinit(self):
        self._r = _real_lock()

    acquire_lock = acquire
    release_lock = release


class CThread(_RealThread):
    """Thread that becomes a managed thread when started from one."""

    _managed = None
    _vp_hash = None

    def __hash__(self):
        # thread pools keep their threads in a set: its order must not depend on addresses
        if self._vp_hash is None:
            c = _cur()
            if c is None:
                self._vp_hash = id(self) >> 4
            else:
                c[0].hashes += 1
                self._vp_hash = c[0].hashes
        return self._vp_hash

    def start(self):
        c = _cur()
        if c is None:
            return super().start()
        s, t = c
        if not self._initialized:
            raise RuntimeError("thread.__init__() not called")
        if self._managed is not None:
            raise RuntimeError("threads can only be started once")
        s.point(t)
        m = s.new_thread(self.name)
        m.daemon = self.daemon
        m.group = getattr(self, "_vp_group", t.group)
        self._managed = (s, m)

        def body():
            ident = _get_ident()
            self._ident = ident
            prev = threading._active.get(ident)
            threading._active[ident] = self
            try:
                self.run()
            except Abort:
                raise
            except BaseException as e:  # noqa
                m.exc = e
                s.thread_errors.append((self.name, e))
            finally:
                if prev is None:
                    threading._active.pop(ident, None)
                else:
                    threading._active[ident] = prev
        s._launch(m, body)
        self._started._flag = True

    def join(self, timeout=None):
        if self._managed is None:
            return super().join(timeout)
        s, m = self._managed
        c = _cur()
        if c is None or c[0] is not s:
            return
        if c[1] is m:
            raise RuntimeError("cannot join current thread")
        s.point(c[1])
        if not m.done:
            s.block(c[1], lambda: m.done, timeout)

    def is_alive(self):
        if self._managed is None:
            return super().is_alive()
        return not self._managed[1].done

    def _stop(self):
        if self._managed is None:
            super()._stop()


def _sleep(sec):
    c = _cur()
    if c is None:
        return _real_sleep(sec)
    s, t = c
    end = s.now + sec
    s.block(t, lambda: s.now >= end, sec)


def _vtime():
    c = _cur()
    return _real_time() if c is None else 1.7e9 + c[0].now


def _vmono():
    c = _cur()
    return _real_monotonic() if c is None else c[0].now


def _vperf():
    c = _cur()
    return _real_perf() if c is None else c[0].now


# -- multiprocessing stand-ins ---------------------------------------------
PIPE_CAPACITY = [None]


class _Chan:
    def __init__(self, cap):
        self.items = []
        self.cap = cap
        self.wclosed = False
        self.rclosed = False


class CConn:
    """One end of an in-memory pipe with copy semantics."""

    def __init__(self, r, w):
        self._rd = r
        self._wr = w
        self.closed = False

    def _check(self):
        if self.closed:
            raise OSError("handle is closed")

    def send(self, obj):
        import pickle
        self._check()
        data = pickle.dumps(obj)
        ch = self._wr
        if ch is None:
            raise OSError("connection is read-only")
        c = _cur()
        if c is not None:
            s, t = c
            s.point(t)
            if ch.rclosed:
                raise BrokenPipeError(32, "Broken pipe")
            if ch.cap is not None and len(ch.items) >= ch.cap:
                s.block(t, lambda: len(ch.items) < ch.cap or ch.rclosed)
            if ch.rclosed:
                raise BrokenPipeError(32, "Broken pipe")
        ch.items.append(data)

    def recv(self):
        import pickle
        self._check()
        ch = self._rd
        if ch is None:
            raise OSError("connection is write-only")
        c = _cur()
        if c is not None:
            s, t = c
            s.point(t)
            if not ch.items and not ch.wclosed:
                s.block(t, lambda: bool(ch.items) or ch.wclosed)
        if not ch.items:
            raise EOFError
        return pickle.loads(ch.items.pop(0))

    def poll(self, timeout=0.0):
        ch = self._rd
        c = _cur()
        if c is None:
            return bool(ch.items)
        s, t = c
        s.point(t)
        if ch.items or ch.wclosed:
            return True
        if timeout == 0.0:
            return False
        return s.block(t, lambda: bool(ch.items) or ch.wclosed, timeout)

    def fileno(self):
        return -1

    @property
    def readable(self):
        return self._rd is not None

    @property
    def writable(self):
        return self._wr is not None

    def close(self):
        if not self.closed:
            self.closed = True
            if self._wr is not None:
                self._wr.wclosed = True
            if self._rd is not None:
                self._rd.rclosed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def CPipe(duplex=True):
    a = _Chan(PIPE_CAPACITY[0])
    if not duplex:
        return CConn(a, None), CConn(None, a)
    b = _Chan(PIPE_CAPACITY[0])
    return CConn(a, b), CConn(b, a)


class CMpQueue:
    """In-memory multiprocessing queue (copies items)."""

    def __init__(self, maxsize=0, *, ctx=None):
        self._max = maxsize if maxsize > 0 else None
        self._items = []
        self._closed = False

    def put(self, obj, block=True, timeout=None):
        import pickle
        if self._closed:
            raise ValueError("Queue is closed")
        data = pickle.dumps(obj)
        c = _cur()
        if c is not None:
            s, t = c
            s.point(t)
            if self._max is not None and len(self._items) >= self._max:
                if not block:
                    raise queue.Full
                if not s.block(t, lambda: len(self._items) < self._max, timeout):
                    raise queue.Full
        self._items.append(data)

    def get(self, block=True, timeout=None):
        import pickle
        if self._closed:
            raise ValueError("Queue is closed")
        c = _cur()
        if c is not None:
            s, t = c
            s.point(t)
            if not self._items:
                if not block:
                    raise queue.Empty
                if not s.block(t, lambda: bool(self._items), timeout):
                    raise queue.Empty
        if not self._items:
            raise queue.Empty
        return pickle.loads(self._items.pop(0))

    def put_nowait(self, o):
        return self.put(o, False)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        c = _cur()
        if c is not None:
            c[0].point(c[1])
        return not self._items

    def full(self):
        return self._max is not None and len(self._items) >= self._max

    def qsize(self):
        return len(self._items)

    def close(self):
        self._closed = True

    def _clone(self):
        """The handle a child process gets: same channel, closed independently."""
        q = CMpQueue.__new__(CMpQueue)
        q._max, q._items, q._closed = self._max, self._items, False
        return q

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class CProcess:
    """multiprocessing.Process stand-in: a managed thread with exit code."""

    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        CProcess._n += 1
        self.name = name or "Process-%d" % CProcess._n
        self.daemon = bool(daemon)
        self._th = None
        self.exitcode = None
        self._killed = False
        self.pid = 100000 + CProcess._n

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self._args = tuple(a._clone() if isinstance(a, CMpQueue) else a for a in self._args)
        # the child works on its own copy of the object
        child = copy.copy(self)
        c = _cur()
        if c is not None:
            c[0].children.setdefault(c[1].group, []).append(self)

        def body():
            c = _cur()
            code = 1
            try:
                child.run()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0
            finally:
                if c is not None and not c[0].aborting:
                    for p in c[0].children.get(self.pid, []):
                        if not p.daemon:
                            p._th.join()
                    c[0].exited.add(self.pid)
                self.exitcode = code
        self._th = threading.Thread(target=body, name=self.name, daemon=self.daemon)
        self._th._vp_group = self.pid
        self._th.start()

    def join(self, timeout=None):
        self._th.join(timeout)

    def is_alive(self):
        return self._th is not None and not self._killed and self._th.is_alive()

    def terminate(self):
        # the real call kills the process asynchronously; the managed thread is left parked and
        # is unwound when the execution ends
        self._killed = True
        self.exitcode = -15
        if self._th is not None and self._th._managed is not None:
            self._th._managed[1].pred = lambda: False
            self._th._managed[1].daemon = True

    kill = terminate

    def close(self):
        pass


def _getpid():
    c = _cur()
    return _real_getpid() if c is None or c[1].group is None else c[1].group


class _Context:
    """What multiprocessing.get_context() gives."""

    def __init__(self):
        import multiprocessing as m
        self.Process, self.Queue, self.Pipe, self.Event = CProcess, CMpQueue, CPipe, m.Event
        self.Lock, self.RLock = threading.Lock, threading.RLock

    def get_context(self, method=None):
        return self


_installed = False


def install(mp=True):
    """Replace the primitives; call before importing code under test."""
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = CLock
    threading._allocate_lock = CLock
    threading.RLock = threading._PyRLock
    threading.Thread = CThread
    threading._time = _vmono
    queue.time = _vmono
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = _sleep
    time.time = _vtime
    time.monotonic = _vmono
    time.perf_counter = _vperf
    sys.unraisablehook = lambda a: None
    import concurrent.futures.thread  # noqa
    import concurrent.futures as cf
    cf.thread.threading = threading
    if mp:
        import multiprocessing
        multiprocessing.Pipe = CPipe
        multiprocessing.Queue = CMpQueue
        multiprocessing.Process = CProcess
        multiprocessing.Event = lambda: threading.Event()
        multiprocessing.get_context = lambda method=None: _Context()
        os.getpid = _getpid
        import multiprocessing.connection
        multiprocessing.connection.Connection = CConn


# -- exploration -------------------------------------------------------------
class Stats:
    def __init__(self):
        self.executions = 0
        self.steps = 0
        self.points = 0
        self.switches = 0
        self.capped = False

    def add(self, e):
        self.executions += 1
        self.steps += e.steps
        self.points += len(e.trace)
        self.switches += e.switches


def alternatives(trace, lo, bound):
    """Scripts that deviate from this trace at one position >= lo, within the cost bound."""
    cost = 0
    out = []
    for i, (n, c, costs) in enumerate(trace):
        if i >= lo:
            for a in range(n):
                if a > c and cost + costs[a] <= bound:
                    out.append((i, [x[1] for x in trace[:i]] + [a]))
        cost += costs[c]
        if cost > bound:
            break
    return out


def explore(make, bound, visit, mode="preempt", prefix=(), lo=0, limit=None, stats=None, **kw):
    """Depth-first enumeration of all schedules of make() within the bound.

    make() returns the function to run as main managed thread; visit(exec, script) judges one
    finished execution and may return True to stop.
    """
    stats = stats or Stats()
    stack = [(list(prefix), lo)]
    while stack:
        script, low = stack.pop()
        e = Execution(script, bound, mode, **kw)
        fn = make()
        e.run(fn)
        stats.add(e)
        if e.outcome == "replay-mismatch":
            raise Replay("schedule replay diverged at %d" % len(e.trace))
        if visit(e, script):
            return stats
        for i, s in reversed(alternatives(e.trace, max(low, len(script)), bound)):
            stack.append((s, i + 1))
        if limit is not None and stats.executions >= limit and stack:
            stats.capped = True
            return stats
    return stats


def roots(make, bound, mode="preempt", **kw):
    """First-level subtrees, for splitting an exploration over processes."""
    e = Execution((), bound, mode, **kw)
    e.run(make())
    return e, [(s, i + 1) for i, s in alternatives(e.trace, 0, bound)]
