"""C02: no worker outlives its context; lost or killed workers do not stop the rest."""
import multiprocessing
import os

from gama.utilities.generic.async_evaluator import AsyncEvaluator
from stopit import TimeoutException

from mc import core, jobs, procs, rng

LEVEL = "model_checking"
RULE = (
    "one execution = one complete schedule of main process, workers and queue feeders "
    "with the chosen fault; state = (scenario, how the context ended, executions by "
    "worker, kills, fate of every process)"
)
BOUNDS = {
    "quick": "1-3 workers, up to 4 calls (finished, queued, running or never ending); "
    "context left normally, by an exception or by a timeout at every scheduling point; "
    "worker death and memory excess at any time; schedules with at most 1 further delay",
    "thorough": "as quick with at most 2 further delays",
}
ASSUMPTIONS = [
    "scheduling points are queue, process and sleep operations and the points inside "
    "each call; code between them is taken to be atomic",
    "a worker is not killed while it holds a queue's internal lock",
    "memory of a worker changes only while it executes a call",
]


class Boom(Exception):
    pass


def scenarios(tier):
    deep = 1 if tier == "thorough" else 0
    out = []
    for w in (1, 2, 3):
        for script in ("", "S", "SW", "SS", "SSW", "SSSW"):
            for how in ("normal", "exception", "interrupt"):
                out.append(dict(name=f"leave-{how}-{script or 'empty'}-w{w}", op="leave",
                                how=how, script=script, workers=w, bound=1 + deep,
                                kinds=["evaluation"] * 4))
        for script in ("S", "SS", "SSS"):
            out.append(dict(name=f"leave-busy-{script}-w{w}", op="leave", how="normal",
                            script=script, workers=w, bound=1 + deep,
                            kinds=["forever", "evaluation", "forever"]))
        for script in ("SW", "SSWW", "SSW"):
            out.append(dict(name=f"timeout-{script}-w{w}", op="leave", how="timeout",
                            script=script, workers=w, bound=(1 if w < 3 else 0) + deep,
                            kinds=["evaluation"] * 4))
        out.append(dict(name=f"timeout-busy-w{w}", op="leave", how="timeout",
                        script="SSW", workers=w, bound=0 + deep,
                        kinds=["forever", "forever"]))
        for dies in range(4):
            # "log": resource usage is recorded, "limit": there is a memory limit
            for mode in ("log", "limit"):
                out.append(dict(name=f"dies{dies}-{mode}-w{w}", op="dies", workers=w,
                                dies=dies, mode=mode, bound=(1 if w < 3 else 0) + deep))
        for calls in (1, 2, 3):
            for mode in ("log", "limit"):
                out.append(dict(name=f"killed-calls{calls}-{mode}-w{w}", op="killed",
                                workers=w, calls=calls, mode=mode,
                                bound=(1 if w == 1 and calls < 3 else 0) + deep))
        for n_dead in range(1, w + 1):
            for mode in ("none", "log", "limit"):
                for how in ("normal", "exception"):
                    out.append(dict(name=f"reaped{n_dead}-{mode}-{how}-w{w}", op="reaped",
                                    workers=w, dead=n_dead, mode=mode, how=how,
                                    bound=(1 if w < 3 else 0) + deep))
        for n_hogs, n_calls in ((1, 1), (1, 3), (2, 2)):
            for behaved in (0, 25):
                for main in (10, 2000):  # memory of the main process
                    out.append(dict(
                        name=f"hog{n_hogs}-calls{n_calls}-behaved{behaved}-main{main}-w{w}",
                        op="hog", workers=w, hogs=n_hogs, calls=n_calls, main=main,
                        behaved=behaved,
                        bound=(1 if w < 3 and main == 10 else 0) + deep))
    for how in ("normal", "exception", "interrupt"):
        for inside in (False, True):
            out.append(dict(name=f"reenter-{how}{'-inside' * inside}", op="reenter",
                            how=how, inside=inside, workers=1, bound=1))
    return out


def gone(env, what):
    left = [r for r in env.workers if r.alive]
    core.check(not left, f"{what}: {len(left)} worker processes are still running")
    zombies = [r for r in env.workers if not r.reaped]
    core.check(not zombies, f"{what}: {len(zombies)} worker processes are zombies")


def lost_calls(env):
    """Calls which a dead worker took, and whose result it did not get out."""
    return sum(len(r.got) - len(r.sent) for r in env.workers if r.killed)


def body(name, p, tier):
    def one(ch, rec):
        jobs.LOG.clear()
        with rng.deterministic_uuid(), procs.Threads(ch) as env:
            jobs.ENV = env
            dict(leave=leave, dies=dies, hog=hog, reenter=reenter, reaped=reaped,
                 killed=killed)[p["op"]](env, rec)
        rec.sample(dict(scenario=name, schedule=ch.choices[:60]))

    def note(env, rec, *more):
        pids = {}
        runs = [(t, pids.setdefault(pid, len(pids))) for t, pid in jobs.LOG]
        rec.state(name, runs, len(env.kills), len(env.workers), *more)

    def submit(ev, i, kind):
        if kind == "forever":
            return ev.submit(jobs.forever, i)
        return ev.submit(jobs.call, i, kind)

    def leave(env, rec):
        how = p["how"]
        error = dict(normal=None, exception=Boom("own error"), interrupt=KeyboardInterrupt(),
                     timeout=None)[how]
        armed = [False]
        chances = []

        def inject(_, reason):
            if not armed[0]:
                return None
            chances.append(reason)  # after 40 of them at the latest, it does
            if len(chances) > 40 or env.ch.choose(2, "timeout strikes here"):
                armed[0] = False
                return TimeoutException()

        delivered, handles = 0, []
        started = None
        try:
            with AsyncEvaluator(n_workers=p["workers"]) as ev:
                if how == "timeout":
                    env.inject = inject
                    armed[0] = True
                try:
                    for i, step in enumerate(p["script"]):
                        if step == "S":
                            kind = p["kinds"][len(handles)]
                            handles.append(submit(ev, len(handles), kind))
                        else:
                            ev.wait_next()
                            delivered += 1
                finally:
                    armed[0] = False
                started = env.offset
                if error is not None:
                    raise error
        except (Boom, KeyboardInterrupt) as e:
            core.check(e is error, f"a different error came out: {e!r}")
            outcome = "error"
        except TimeoutException:
            core.check(how == "timeout", "unexpected timeout")
            outcome = "timeout"
        else:
            core.check(error is None, "the error of the caller was swallowed")
            outcome = "normal"
        gone(env, f"after leaving ({outcome})")
        if started is not None:
            core.check(env.offset - started < 120, "leaving takes longer than two minutes")
            if delivered == len(handles):
                core.check(env.offset - started < 9, "idle workers do not stop when asked: "
                           f"leaving takes {env.offset - started:.0f} s")
        note(env, rec, outcome, delivered)

    def reenter(env, rec):
        """However the first context ended, and also while it lasts."""
        ev = AsyncEvaluator(n_workers=1)
        error = dict(normal=None, exception=Boom("own"), interrupt=KeyboardInterrupt())[
            p["how"]]

        def again():
            n = len(env.workers)
            try:
                with ev:
                    core.check(False, "the same evaluator was used in two contexts")
            except RuntimeError:
                pass
            core.check(len(env.workers) == n, "entering again started processes")

        try:
            with ev:
                ev.submit(jobs.call, 0, "evaluation")
                if p["inside"]:
                    again()
                core.check(ev.wait_next().result.tag == 0, "not the submitted call")
                if error is not None:
                    raise error
        except (Boom, KeyboardInterrupt) as e:
            core.check(e is error, f"a different error came out: {e!r}")
        gone(env, "after leaving")
        again()
        again()
        gone(env, "after using it twice")
        note(env, rec)

    def dies(env, rec):
        """Exactly one call takes its worker down; all others are still delivered."""
        log_file = os.path.join(os.getcwd(), "memory.log")
        kwargs = dict(logfile=log_file) if p["mode"] == "log" else dict(
            memory_limit_mb=100_000)
        got, lost = [], 0
        problem = None
        with AsyncEvaluator(n_workers=p["workers"], **kwargs) as ev:
            for i in range(4):
                if i == p["dies"]:
                    ev.submit(jobs.die, i)
                else:
                    ev.submit(jobs.call, i, "evaluation")
            try:
                while len(got) + (lost := lost_calls(env)) < 4:
                    f = ev.wait_next()
                    core.check(f.exception is None, f"unexpected {f.exception!r}")
                    got.append(f.result.tag)
                # and once more: the replacement works, however it came about
                ev.submit(jobs.call, 5, "evaluation")
                got.append(ev.wait_next().result.tag)
                alive = len([r for r in env.workers if r.alive])
                core.check(alive >= 1, "no worker left")
                core.check(alive <= p["workers"], f"{alive} workers, not {p['workers']}")
            except core.Violation as e:
                problem = e
            lost = lost_calls(env)
            if problem is not None and (env.problem is None or len(got) + lost < 4):
                raise problem
        core.check(len(got) == len(set(got)), f"delivered twice: {got}")
        if problem is None:
            gone(env, "after a worker died")
        note(env, rec, got)

    def killed(env, rec):
        """Any worker, busy or idle, is killed from outside at any moment."""
        kwargs = dict(log=dict(logfile=os.path.join(os.getcwd(), "memory.log")),
                      limit=dict(memory_limit_mb=100_000))[p["mode"]]
        chances, victim = [], []

        def inject(_, reason):
            if victim or len(chances) > 25:
                return None
            chances.append(reason)
            alive = [r for r in env.workers if r.alive]
            k = env.ch.choose(1 + len(alive), "worker killed here")
            if k:
                r = alive[k - 1]
                victim.append(r)
                r.alive, r.killed = False, True
                env.feeders = [f for f in env.feeders if f[0] is not r]
                env.changed()

        got, problem = [], None
        with AsyncEvaluator(n_workers=p["workers"], **kwargs) as ev:
            env.inject = inject
            try:
                for i in range(p["calls"]):
                    ev.submit(jobs.call, i, "evaluation")
                while len(got) + lost_calls(env) < p["calls"]:
                    f = ev.wait_next()
                    core.check(f.exception is None, f"unexpected {f.exception!r}")
                    got.append(f.result.tag)
                env.inject = None
                ev.submit(jobs.call, 9, "evaluation")
                got.append(ev.wait_next().result.tag)
                alive = len([r for r in env.workers if r.alive])
                core.check(1 <= alive <= p["workers"], f"{alive} workers in the end")
            except core.Violation as e:
                problem = e
            env.inject = None
            if problem is not None and (
                    env.problem is None or len(got) + lost_calls(env) < p["calls"]):
                raise problem
        core.check(len(got) == len(set(got)), f"delivered twice: {got}")
        if problem is None:
            gone(env, "after a worker was killed")
        note(env, rec, got, len(victim))

    def reaped(env, rec):
        """Workers die, and are reaped, before the context is left."""
        error = Boom("own error") if p["how"] == "exception" else None
        kwargs = dict(
            none={}, log=dict(logfile=os.path.join(os.getcwd(), "memory.log")),
            limit=dict(memory_limit_mb=100_000))[p["mode"]]
        problem = None
        try:
            with AsyncEvaluator(n_workers=p["workers"], **kwargs) as ev:
                for i in range(p["dead"]):
                    ev.submit(jobs.die, i)
                for _ in range(50):
                    if len([r for r in env.workers if r.killed]) >= p["dead"]:
                        break
                    env.sleep(1)
                multiprocessing.active_children()
                if error is not None:
                    raise error
        except Boom as e:
            core.check(e is error, f"a different error came out: {e!r}")
        except core.Violation as e:
            problem = e
        else:
            core.check(error is None, "the error of the caller was swallowed")
        if problem is not None:
            raise problem
        gone(env, "after workers died and were reaped")
        note(env, rec)

    def hog(env, rec):
        """Calls that use too much memory cost their worker, nothing else."""
        w = p["workers"]
        limit = 10 * w + p["main"] + 50
        env.main.memory_mb = p["main"]
        total = p["hogs"] + p["calls"]
        got = []
        ev = AsyncEvaluator(n_workers=w, memory_limit_mb=limit)
        problem = None
        with ev:
            if p["behaved"]:
                # a history of well-behaved calls: the worker is restarted instead
                ev._mem_behaved = p["behaved"] if hasattr(ev, "_mem_behaved") else 0
            for i in range(total):
                if i < p["hogs"]:
                    ev.submit(jobs.hog, i, 500 + i)
                else:
                    ev.submit(jobs.call, i, "evaluation")
            try:
                while True:
                    if len(got) + lost_calls(env) >= total:
                        break
                    got.append(ev.wait_next().result.tag)
            except core.Violation as e:
                problem = e
            killed = [r for r in env.workers if r.killed]
            lost = lost_calls(env)
            if problem is not None and len(got) + lost < total:
                raise problem
            if problem is None:
                alive = [r for r in env.workers if r.alive]
                core.check(alive, "the memory limit left no worker")
                core.check(len(alive) <= w, f"{len(alive)} workers, asked for {w}")
                for r in killed:
                    core.check(
                        r.hogged, "a worker that used little memory was killed"
                    )
                core.check(len(got) == len(set(got)), f"delivered twice: {got}")
        if problem is None:
            gone(env, "after a memory violation")
        note(env, rec, got, lost)

    return one


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=p["bound"])
