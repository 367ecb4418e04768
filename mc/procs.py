"""Stand-ins for processes, inter-process queues, psutil and the clock.

Two environments run the real `AsyncEvaluator` and the real worker loop:

* `Threads`: every worker process is a thread of a cooperative scheduler.  Every queue
  operation, sleep, process operation and explicit `point()` is a scheduling point at
  which the explorer decides who runs next (delay bounding), how long an item lingers in
  the sender's buffer before it reaches the pipe, and when a process dies.
* `Inline`: a worker is run to completion for one job whenever the main process asks for
  a result; the explorer decides which of the jobs in flight that is.

What is modelled of multiprocessing.Queue: an item is pickled by a feeder some time
after `put` returned, items of one sender stay in order, unpicklable items are dropped,
`empty` looks at the pipe only, buffered items are lost with a killed process and
flushed by one that exits, a closed queue can not be used by the process that closed it.
"""
import collections
import contextlib
import copy
import os
import pickle
import queue as queue_module
import sys
import threading
import time as time_module

import multiprocessing
import psutil

from mc import core

REAL_SLEEP = time_module.sleep
REAL_TIME = time_module.time
REAL_ACTIVE = multiprocessing.active_children
REAL_QUEUE = multiprocessing.Queue
REAL_PROCESS = multiprocessing.Process
REAL_PS = psutil.Process


class Killed(BaseException):
    """Unwinds a worker thread whose process was killed (or whose run is over)."""


class InlineStop(BaseException):
    """The one job an inline worker was woken for is done."""


class EnoughSeen(BaseException):
    """The (endless) activity has been watched for as long as intended."""


class EnvQueue:
    """Interface of multiprocessing.Queue, answered by the environment."""

    def __init__(self, env, maxsize=0):
        self._env = env
        self._pipe = collections.deque()  # pickled items
        self._closed_by = set()
        self.number = len(env.queues)
        env.queues.append(self)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError(
            "Queue objects should only be shared between processes through inheritance"
        )

    def put(self, obj, block=True, timeout=None):
        self._env.q_put(self, obj)

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        return self._env.q_get(self, block, timeout)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return self._env.q_empty(self)

    def qsize(self):
        return self._env.q_size(self)

    def full(self):
        return False

    def close(self):
        self._env.q_close(self)

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class EnvProcess:
    """Interface of multiprocessing.Process."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *,
                 daemon=None, env=None):
        self._env = env
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.name = name or "worker"
        self.pid = None
        self._record = None

    @property
    def ident(self):
        return self.pid

    @property
    def exitcode(self):
        r = self._record
        return None if r is None or r.alive else r.exitcode

    def start(self):
        self._record = self._env.p_start(self)
        self._record.process = self
        self.pid = self._record.pid

    def is_alive(self):
        self._env.point("is_alive")
        return self._record is not None and self._record.alive

    def terminate(self):
        self._env.p_kill(self._record)

    kill = terminate

    def join(self, timeout=None):
        self._env.p_join(self._record, timeout)

    def close(self):
        pass


class EnvPs:
    """Interface of psutil.Process."""

    def __init__(self, pid=None, env=None):
        self.pid = os.getpid() if pid is None else pid
        self._env = env
        self._env.p_record(self)  # raises NoSuchProcess

    def __eq__(self, other):
        return isinstance(other, EnvPs) and other.pid == self.pid

    def __hash__(self):
        return hash(self.pid)

    def _rec(self):
        return self._env.p_record(self)

    def terminate(self):
        self._env.p_kill(self._rec(), ps=True)

    kill = terminate

    def send_signal(self, sig):
        self.terminate()

    def wait(self, timeout=None):
        return self._env.p_wait(self._rec_or_gone(), timeout)

    def _rec_or_gone(self):
        return self._env.records[self.pid]

    def memory_info(self):
        self._env.point("memory_info")
        r = self._rec()
        # a zombie has no memory
        rss = int((r.memory_mb if r.alive else 0) * 2**20)
        return psutil._pslinux.pmem(rss, rss, 0, 0, 0, 0, 0) if False else _pmem(rss)

    memory_full_info = memory_info

    def status(self):
        r = self._rec()
        return psutil.STATUS_RUNNING if r.alive else psutil.STATUS_ZOMBIE

    def is_running(self):
        try:
            self._rec()
            return True
        except psutil.NoSuchProcess:
            return False

    def name(self):
        return "python"

    def ppid(self):
        return os.getpid()

    def children(self, recursive=False):
        return []

    @contextlib.contextmanager
    def oneshot(self):
        yield

    def cpu_percent(self, interval=None):
        return 0.0


_Pmem = collections.namedtuple("pmem", "rss vms shared text lib data dirty")


def _pmem(rss):
    return _Pmem(rss, rss, 0, 0, 0, 0, 0)


class Record:
    """A process as the operating system sees it."""

    def __init__(self, pid, is_main=False):
        self.pid = pid
        self.is_main = is_main
        self.alive = True
        self.reaped = False
        self.exitcode = None
        self.memory_mb = 10
        self.killed = False
        self.hogged = False
        self.jobs = []
        self.got = []  # sizes of the items it took from / put on queues (see Threads)
        self.sent = []


_sites = (None, [])


def patch_sites():
    """Where gama (or the modules it uses) refers to what is to be replaced."""
    global _sites
    if _sites[0] != len(sys.modules):
        real = {
            id(REAL_QUEUE.__func__): "queue",
            id(REAL_PROCESS): "process",
            id(REAL_PS): "ps",
            id(REAL_SLEEP): "sleep",
            id(REAL_TIME): "time",
            id(REAL_ACTIVE): "active",
        }
        found = []
        for mod in list(sys.modules.values()):
            name = getattr(mod, "__name__", "")
            if not (
                name.startswith("gama") or name in ("multiprocessing", "psutil", "time")
            ):
                continue
            for attr, value in list(vars(mod).items()):
                what = real.get(id(getattr(value, "__func__", value)))
                if what is not None:
                    found.append((mod, attr, value, what))
        _sites = (len(sys.modules), found)
    return _sites[1]


class Environment:
    def __init__(self, ch):
        self.ch = ch
        self.queues = []
        self.main = Record(os.getpid(), is_main=True)
        self.records = {self.main.pid: self.main}
        self.offset = 0.0
        self.next_pid = 4_000_000
        self.kills = []
        self.log = []
        self._patched = []

    # ---- installing -------------------------------------------------------------
    def install(self):
        env = self

        def make_queue(*args, **kwargs):
            return EnvQueue(env)

        class Process(EnvProcess):
            def __init__(self, *a, **kw):
                super().__init__(*a, env=env, **kw)

        class PsProcess(EnvPs):
            def __init__(self, pid=None):
                super().__init__(pid, env=env)

        replace = dict(
            queue=make_queue, process=Process, ps=PsProcess, sleep=self.sleep,
            time=self.time, active=self.active_children,
        )
        for mod, attr, value, what in patch_sites():
            self._patched.append((mod, attr, value))
            setattr(mod, attr, replace[what])

    def uninstall(self):
        for mod, attr, value in reversed(self._patched):
            setattr(mod, attr, value)
        self._patched = []

    def __enter__(self):
        self.install()
        return self

    def __exit__(self, *exc):
        self.uninstall()
        self.shutdown()
        return False

    def shutdown(self):
        pass

    # ---- clock ------------------------------------------------------------------
    def time(self):
        return REAL_TIME() + self.offset

    def sleep(self, seconds):
        self.offset += max(0.0, float(seconds))
        self.pause("sleep")

    # ---- processes --------------------------------------------------------------
    def current(self):
        return self.main

    def p_record(self, ps):
        r = self.records.get(ps.pid)
        if r is None or r.reaped:
            raise psutil.NoSuchProcess(ps.pid)
        return r

    def active_children(self):
        """Like that of multiprocessing: reaps those which ended."""
        self.point("active_children")
        self.reap()
        return [r.process for r in self.workers if r.alive]

    def reap(self):
        for r in self.records.values():
            if not r.is_main and not r.alive:
                r.reaped = True

    def new_record(self):
        # like multiprocessing, starting a process polls (and reaps) finished children
        self.reap()
        self.next_pid += 1
        r = Record(self.next_pid)
        self.records[r.pid] = r
        return r

    @property
    def workers(self):
        return [r for r in self.records.values() if not r.is_main]

    def unpickle(self, blob):
        return pickle.loads(blob)


class Threads(Environment):
    """Every process is a thread; the explorer owns the schedule."""

    HORIZON = 60  # rounds in which nothing but the clock moves before it is a deadlock
    MAX_STEPS = 20_000

    def __init__(self, ch):
        super().__init__(ch)
        self.version = 0  # bumped whenever any shared state changes
        self.lock_owner = None
        self.over = False
        self.steps = 0
        self.idle_rounds = 0
        self.problem = None
        self.inject = None  # callable(env, reason) -> exception or None (main only)
        me = self.main
        me.thread = threading.current_thread()
        me.baton = threading.Semaphore(0)
        me.blocked_at = None
        me.empties = {}
        me.buffer = collections.deque()
        me.finished = False
        self.actors = [me]
        self.running = me
        self.feeders = []  # (record, queue, obj) waiting to be flushed, in order

    # -- scheduling
    def current(self):
        return self.running

    def changed(self):
        self.version += 1
        self.idle_rounds = 0

    def enabled(self, a):
        if not a.alive or a.finished:
            return False
        return a.blocked_at is None or a.blocked_at != self.version

    def candidates(self, voluntary):
        cur = self.running
        order = []
        n = len(self.actors)
        at = self.actors.index(cur) if cur in self.actors else 0
        rotation = [self.actors[(at + 1 + i) % n] for i in range(n - 1)]
        rotation = [a for a in rotation if self.enabled(a)]
        flush = []
        seen = set()
        for f in self.feeders:
            k = (f[0].pid, f[1].number)
            if k not in seen:  # items of one sender stay in order
                seen.add(k)
                flush.append(f)
        own = [cur] if self.enabled(cur) else []
        order = (flush + rotation + own) if voluntary else (own + flush + rotation)
        return order

    def point(self, reason=""):
        self._switch(reason, voluntary=False)

    def pause(self, reason=""):
        self._switch(reason, voluntary=True)

    def _fatal(self, message):
        if self.problem is None:
            self.problem = message
        self.over = True
        self._hand_to(self.main)

    def _switch(self, reason, voluntary):
        cur = self.running
        if threading.current_thread() is not cur.thread:
            return  # a thread the scheduler does not own (e.g. a timer)
        self._check_alive(cur)
        if self.over and cur is self.main:
            return  # the verdict is in: just let the main process wind up
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            self._fatal(f"no end after {self.MAX_STEPS} scheduling steps (livelock)")
            self._check_alive(cur)
        while True:
            options = self.candidates(voluntary)
            if not options:
                # only the clock can move: wake everyone who waits for time to pass
                self.idle_rounds += 1
                if self.idle_rounds > self.HORIZON:
                    self._fatal("deadlock: everybody waits, nothing is under way")
                    self._check_alive(cur)
                self.offset += 1.0
                for a in self.actors:
                    a.blocked_at = None
                    a.empties.clear()
                continue
            i = self.ch.choose(len(options), f"schedule:{reason}", dev=True)
            nxt = options[i]
            if isinstance(nxt, tuple):
                self.flush(nxt)
                continue
            break
        if nxt is not cur:
            self._hand_to(nxt)
            if cur.alive or cur.is_main:
                self._wait(cur)
        self._check_alive(cur)
        if cur is self.main and self.inject is not None and not self.over:
            exc = self.inject(self, reason)
            if exc is not None:
                raise exc

    def _hand_to(self, actor):
        if actor is self.running:
            return
        self.running = actor
        actor.baton.release()

    def _wait(self, actor):
        actor.baton.acquire()

    def _check_alive(self, cur):
        if cur is self.main:
            if self.over and self.problem and not getattr(self, "_raised", False):
                self._raised = True
                raise core.Violation(self.problem)
        elif self.over or not cur.alive:
            raise Killed()

    def shutdown(self):
        self.over = True
        for a in self.actors:
            if a is not self.main and not a.finished:
                a.baton.release()
                a.thread.join(5)

    # -- processes
    def p_start(self, process):
        self.point("start")
        r = self.new_record()
        r.baton = threading.Semaphore(0)
        r.blocked_at = None
        r.empties = {}
        r.finished = False
        target, args, kwargs = process._target, process._args, process._kwargs
        memo = {}
        args = tuple(_forked(a, memo) for a in args)
        kwargs = {k: _forked(v, memo) for k, v in kwargs.items()}

        def run():
            self._wait(r)
            try:
                self._check_alive(r)
                target(*args, **kwargs)
                r.exitcode = 0
            except Killed:
                r.exitcode = -15
            except BaseException as e:
                r.exitcode = 1
                self.log.append(f"worker {r.pid} died: {type(e).__name__}: {e}")
            finally:
                r.finished = True
                if not self.over and r.alive:
                    # an orderly exit joins the feeder: everything is flushed
                    for f in [f for f in self.feeders if f[0] is r]:
                        self.flush(f)
                    r.alive = False
                    self.changed()
                    self._leave(r)

        r.thread = threading.Thread(target=run, daemon=True)
        r.thread.start()
        self.actors.append(r)
        self.changed()
        return r

    def _leave(self, r):
        """`r`'s thread ends while it holds the baton: somebody else goes on."""
        while True:
            options = self.candidates(voluntary=True)
            options = [o for o in options if o is not r]
            if options:
                break
            self.idle_rounds += 1
            if self.idle_rounds > self.HORIZON:
                self.problem = self.problem or "deadlock: everybody waits"
                self.over = True
                options = [self.main]
                break
            self.offset += 1.0
            for a in self.actors:
                a.blocked_at = None
                a.empties.clear()
        nxt = options[self.ch.choose(len(options), "schedule:exit", dev=True)]
        while isinstance(nxt, tuple):
            self.flush(nxt)
            options = [o for o in self.candidates(True) if o is not r] or [self.main]
            nxt = options[0]
        self._hand_to(nxt)

    def p_kill(self, r, ps=False):
        self.point("kill")
        if r is None:
            raise ValueError("process not started")
        if ps and r.reaped:
            raise psutil.NoSuchProcess(r.pid)
        self.kills.append(r.pid)
        if r.is_main:
            self._fatal("the main process was killed")
            self._check_alive(self.running)
        if r.alive:
            r.alive = False
            r.killed = True
            self.feeders = [f for f in self.feeders if f[0] is not r]
            self.changed()

    def p_wait(self, r, timeout):
        self.pause("wait")
        tries = 0
        while r.alive and not self.over:
            tries += 1
            if timeout is not None and tries > 20:
                raise psutil.TimeoutExpired(timeout, r.pid)
            if timeout is None:
                self.running.blocked_at = self.version
            else:
                self.offset += timeout / 20
            self.pause("wait")
            self.running.blocked_at = None
        if not r.reaped:
            r.reaped = True
            self.changed()
        return r.exitcode

    def p_join(self, r, timeout):
        try:
            self.p_wait(r, timeout)
        except psutil.TimeoutExpired:
            return None

    # -- queues
    def _usable(self, q, error):
        if self.running.pid in q._closed_by:
            raise error

    def q_put(self, q, obj):
        self._usable(q, ValueError(f"Queue {q!r} is closed"))
        self.point("put")
        r = self.running
        f = (r, q, obj)
        waiting = any(g[0] is r and g[1] is q for g in self.feeders)
        if waiting or self.ch.choose(2, "item lingers in buffer", dev=True):
            self.feeders.append(f)
            self.changed()
        else:
            self.flush(f)

    def flush(self, f):
        if f in self.feeders:
            self.feeders.remove(f)
        r, q, obj = f
        try:
            blob = pickle.dumps(obj)
        except Exception as e:
            self.log.append(f"item could not be pickled: {type(e).__name__}: {e}")
            return
        q._pipe.append(blob)
        r.sent.append(len(blob))
        self.changed()

    def q_get(self, q, block, timeout):
        self._usable(q, ValueError(f"Queue {q!r} is closed"))
        r = self.running
        self.point("get")
        if block and not q._pipe:
            tries = 0
            while not q._pipe:
                if timeout is not None and tries >= 2:
                    break
                tries += 1
                if timeout is None:
                    r.blocked_at = self.version
                else:
                    self.offset += timeout / 2
                self.pause("blocking get")
                r.blocked_at = None
        if not q._pipe:
            # polling twice without any change in between: wait for a change
            if r.empties.get(q.number) == self.version:
                r.blocked_at = self.version
                self.pause("poll")
                r.blocked_at = None
            if not q._pipe:
                r.empties[q.number] = self.version
                raise queue_module.Empty()
        blob = q._pipe.popleft()
        self.changed()
        r.got.append(len(blob))
        return self.unpickle(blob)

    def q_empty(self, q):
        self._usable(q, OSError("handle is closed"))
        self.point("empty")
        return not q._pipe

    def q_size(self, q):
        self._usable(q, OSError("handle is closed"))
        self.point("qsize")
        return len(q._pipe)

    def q_close(self, q):
        q._closed_by.add(self.running.pid)

    # -- for jobs
    def exit_now(self):
        """The running worker's process disappears (e.g. out of memory)."""
        r = self.running
        r.alive = False
        r.killed = True
        r.exitcode = -9
        self.feeders = [f for f in self.feeders if f[0] is not r]
        self.changed()
        r.finished = True
        self._leave(r)
        raise Killed()


def _forked(value, memo):
    """What a forked child sees of an argument: its own copy (queues are shared)."""
    if isinstance(value, EnvQueue):
        return value
    try:
        return copy.deepcopy(value, memo)
    except Exception:
        return value


class Inline(Environment):
    """Workers are run inline; the explorer picks which job in flight completes."""

    def __init__(self, ch, order_dev=False):
        super().__init__(ch)
        self.in_worker = None
        self.order_dev = order_dev
        self.before_result = None  # callable(env): may raise into the main process
        self.after_result = None
        self.stalled = 0
        self.delivered = 0
        self.processes = {}
        self.cap = None  # end the activity after this many completed jobs
        self.submitted = None  # callable(item) told of everything the main process puts
        self.worker_death = ()  # exceptions by which a job takes its worker down

    def current(self):
        return self.in_worker or self.main

    def point(self, reason=""):
        pass

    def pause(self, reason=""):
        pass

    def p_start(self, process):
        r = self.new_record()
        self.processes[r.pid] = process
        return r

    def p_kill(self, r, ps=False):
        if ps and r.reaped:
            raise psutil.NoSuchProcess(r.pid)
        self.kills.append(r.pid)
        if r.is_main:
            raise core.Violation("the main process was killed")
        r.alive = False

    def p_wait(self, r, timeout):
        if r.alive:
            if timeout is not None:
                raise psutil.TimeoutExpired(timeout, r.pid)
            raise core.Violation("waits for a worker that was never told to stop")
        r.reaped = True
        return r.exitcode

    def p_join(self, r, timeout):
        with contextlib.suppress(psutil.TimeoutExpired):
            self.p_wait(r, timeout)

    def q_put(self, q, obj):
        if self.current().pid in q._closed_by:
            raise ValueError(f"Queue {q!r} is closed")
        try:
            blob = pickle.dumps(obj)
        except Exception as e:
            self.log.append(f"item could not be pickled: {type(e).__name__}: {e}")
            return
        if self.in_worker is not None:
            self.job_done = True
        elif self.submitted is not None:
            self.submitted(obj)
        q._pipe.append(blob)

    def q_empty(self, q):
        if self.current().pid in q._closed_by:
            raise OSError("handle is closed")
        return not q._pipe

    def q_size(self, q):
        return len(q._pipe)

    def q_close(self, q):
        q._closed_by.add(self.current().pid)

    def in_flight(self, polled):
        alive = [r for r in self.workers if r.alive]
        jobs = max(
            (q for q in self.queues if q is not polled), key=lambda q: len(q._pipe),
            default=None,
        )
        if jobs is None or not alive:
            return None, []
        return jobs, list(jobs._pipe)[: len(alive)]

    def q_get(self, q, block, timeout):
        if self.current().pid in q._closed_by:
            raise ValueError(f"Queue {q!r} is closed")
        if self.in_worker is not None:
            if self.job_done or (q is self.job_queue and self.job is None):
                raise InlineStop()
            if q is self.job_queue:
                blob, self.job = self.job, None
                return self.unpickle(blob)
            if q._pipe:
                return self.unpickle(q._pipe.popleft())
            self.worker_polls += 1
            if self.worker_polls > 50:
                raise InlineStop()
            raise queue_module.Empty()
        if not q._pipe:
            self.complete_one(q)
        if not q._pipe:
            self.stalled += 1
            if self.stalled > 200:
                raise core.Violation(
                    "waits for a result although no evaluation is under way"
                )
            if block and timeout is None:
                raise core.Violation("blocks for a result that can never come")
            raise queue_module.Empty()
        self.stalled = 0
        blob = q._pipe.popleft()
        return self.unpickle(blob)

    def complete_one(self, polled):
        jobs, ready = self.in_flight(polled)
        if not ready:
            return
        if self.cap is not None and self.delivered >= self.cap:
            raise EnoughSeen()
        if self.before_result is not None:
            self.before_result(self)
        i = self.ch.choose(len(ready), "completes", dev=self.order_dev)
        self.job, self.job_queue, self.job_done = ready[i], jobs, False
        self.worker_polls = 0
        del jobs._pipe[i]
        worker = [r for r in self.workers if r.alive][0]
        process = self.processes[worker.pid]
        self.in_worker = worker
        try:
            process._target(*process._args, **process._kwargs)
            worker.alive = False  # the worker left its loop
        except InlineStop:
            pass
        except self.worker_death:
            worker.alive = False
        finally:
            self.in_worker = None
        self.delivered += 1
