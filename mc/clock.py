"""A clock that only moves when told, and the timeouts of stopit that go with it.

`Clock(env)` replaces every reference that gama (or the modules `time`, `stopit`) holds to
a wall clock function, also as default argument, and `stopit.ThreadingTimeout`.  A timeout
strikes the process which set it (see `env.current()`) when that process moves the clock
past it, or looks at it with `poll`, and only once, as the real one does.  Sleeping takes
no time on this clock: it is how gama waits for workers, whose time the check accounts for.
"""
import inspect
import sys
import time

import stopit
import stopit.threadstop

REAL = {
    "time": time.time,
    "monotonic": time.monotonic,
    "perf_counter": time.perf_counter,
}
REAL_TIMEOUT = stopit.ThreadingTimeout


class Clock:
    def __init__(self, env, now=1_000_000.0):
        self.env = env
        self.now = now
        self.active = []  # timeouts in force, outermost first
        self.fired = []
        self._undo = []
        self.on_read = None

    def read(self):
        if self.on_read is not None:
            self.on_read()
        return self.now

    def move(self, seconds):
        """Spend time in the current process; it may be cut short by a timeout."""
        mine = [t for t in self.active if t.owner is self.env.current()]
        until = self.now + seconds
        due = [t for t in mine if t.deadline <= until]
        if due:
            first = min(due, key=lambda t: t.deadline)
            self.now = max(self.now, first.deadline)
            self.strike(first)
        self.now = until

    def poll(self):
        self.move(0.0)

    def strike(self, timeout):
        self.active.remove(timeout)
        self.fired.append((self.now, timeout.owner.pid))
        timeout.state = timeout.TIMED_OUT
        raise stopit.TimeoutException()

    # ---- installing -------------------------------------------------------------
    def timeout_class(clock):
        class VirtualTimeout(stopit.utils.BaseTimeout):
            def setup_interrupt(self):
                self.owner = clock.env.current()
                self.deadline = clock.now + max(0.0, self.seconds)
                clock.active.append(self)

            def suppress_interrupt(self):
                if self in clock.active:
                    clock.active.remove(self)

        return VirtualTimeout

    def set(self, holder, name, value):
        old = holder[name] if isinstance(holder, dict) else getattr(holder, name)

        def undo():
            if isinstance(holder, dict):
                holder[name] = old
            else:
                setattr(holder, name, old)

        self._undo.append(undo)
        if isinstance(holder, dict):
            holder[name] = value
        else:
            setattr(holder, name, value)

    def __enter__(self):
        real = {id(f): self.read for f in REAL.values()}
        real[id(REAL_TIMEOUT)] = self.timeout_class()
        seen = set()
        for mod in list(sys.modules.values()):
            name = getattr(mod, "__name__", "") or ""
            ours = name == "gama" or name.startswith("gama.")
            if not (ours or name in ("time", "stopit", "stopit.threadstop")):
                continue
            for attr, value in list(vars(mod).items()):
                if id(value) in real:
                    self.set(mod, attr, real[id(value)])
                elif getattr(value, "__self__", None) is self.env:
                    if value == self.env.time:
                        self.set(mod, attr, self.read)
                if not ours:
                    continue
                functions = []
                if inspect.isfunction(value):
                    functions.append(value)
                elif inspect.isclass(value):
                    functions += [
                        getattr(f, "__func__", f) for f in vars(value).values()
                        if inspect.isfunction(getattr(f, "__func__", f))
                    ]
                for f in functions:
                    if id(f) in seen:
                        continue
                    seen.add(id(f))
                    if any(id(d) in real for d in f.__defaults__ or ()):
                        self.set(f, "__defaults__", tuple(
                            real.get(id(d), d) for d in f.__defaults__))
                    for k, d in (f.__kwdefaults__ or {}).items():
                        if id(d) in real:
                            self.set(f.__kwdefaults__, k, real[id(d)])
        return self

    def __exit__(self, *exc):
        for undo in reversed(self._undo):
            undo()
        self._undo = []
        return False
