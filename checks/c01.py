"""C01: every submitted call is run once and delivered once, on its own handle."""
import itertools

from gama.utilities.generic.async_evaluator import AsyncEvaluator

from mc import core, jobs, procs, rng

LEVEL = "model_checking"
RULE = (
    "one execution = one complete schedule of main process, workers and queue feeders "
    "running the real evaluator and worker loop; state = (script, kinds of calls, order "
    "of executions by worker, order of deliveries)"
)
BOUNDS = {
    "quick": "1-3 workers, up to 4 calls, every submit/wait script of that size, 14 "
    "kinds of outcome, the same call up to three times; all schedules with at most 2 delays (1 for the larger ones)",
    "thorough": "as quick with at most 3 delays (2 for the larger ones)",
}
ASSUMPTIONS = [
    "scheduling points are queue, process and sleep operations and one point inside "
    "each call; code between them is taken to be atomic",
    "a worker is not killed while it holds a queue's internal lock",
]


def scripts(n_calls):
    """All orders of n submits and n waits in which a wait has something to wait for."""
    out = []

    def grow(s, subs, waits):
        if subs == n_calls and waits == n_calls:
            out.append(s)
            return
        if subs < n_calls:
            grow(s + "S", subs + 1, waits)
        if waits < subs:
            grow(s + "W", subs, waits + 1)

    grow("", 0, 0)
    return out


def scenarios(tier):
    deep = 1 if tier == "thorough" else 0
    out = []
    for script in scripts(1) + scripts(2):
        for w in (1, 2):
            out.append(dict(name=f"order-{script}-w{w}", script=script, workers=w,
                            kinds=["evaluation", "raise_value"], bound=2 + deep))
    for script in scripts(3):
        for w in (1, 2, 3):
            out.append(dict(name=f"order-{script}-w{w}", script=script, workers=w,
                            kinds=["evaluation", "number", "raise_value"],
                            bound=(2 if w < 3 and script[2] == "S" else 1) + deep))
    for script in ("SSSSWWWW", "SSWSWSWW"):
        out.append(dict(name=f"order-{script}-w2", script=script, workers=2,
                        kinds=["evaluation"] * 4, bound=1 + deep))
    for kind in jobs.KINDS:
        for w in (1, 2):
            out.append(dict(name=f"kind-{kind}-w{w}", script="SSSWWW", workers=w,
                            kinds=[kind, "evaluation", kind], bound=1))
    for a, b in itertools.product(jobs.KINDS, repeat=2):
        out.append(dict(name=f"pair-{a}-{b}", script="SSWW", workers=1, kinds=[a, b],
                        bound=0 + deep))
    # defaults shared between all calls reach every call
    for w in (1, 2):
        out.append(dict(name=f"defaults-w{w}", script="SSWSWW", workers=w, bound=1,
                        kinds=["evaluation", "number", "none"], defaults=True))
    # the very same call submitted more than once: each time it is a call of its own
    for script in scripts(2) + ["SSSWWW", "SSWSWW"]:
        for w in (1, 2):
            for kind in ("number", "raise_value"):
                out.append(dict(name=f"same-{kind}-{script}-w{w}", script=script,
                                workers=w, kinds=[kind] * 3, same=True, bound=1 + deep))
    return out


def body(name, p, tier):
    script, kinds = p["script"], p["kinds"]
    tag_of = (lambda i: 0) if p.get("same") else (lambda i: i)

    def one(ch, rec):
        jobs.LOG.clear()
        saved = AsyncEvaluator.defaults
        with rng.deterministic_uuid(), procs.Threads(ch) as env:
            jobs.ENV = env
            if p.get("defaults"):
                AsyncEvaluator.defaults = dict(shared="yes")
            try:
                drive(env, rec)
            finally:
                AsyncEvaluator.defaults = saved
        rec.sample(dict(script=script, kinds=kinds, schedule=ch.choices))

    def drive(env, rec):
        handles, delivered = [], []
        with AsyncEvaluator(n_workers=p["workers"]) as ev:
            for step in script:
                if step == "S":
                    i = len(handles)
                    fn = jobs.call_with_default if p.get("defaults") else jobs.call
                    args, kwargs = (tag_of(i), kinds[i]), {}
                    if i % 2 and not p.get("same"):  # both ways to pass an argument
                        args, kwargs = args[:1], dict(kind=kinds[i])
                    handles.append(ev.submit(fn, *args, **kwargs))
                else:
                    f = ev.wait_next()
                    which = [i for i, h in enumerate(handles) if h is f]
                    core.check(which, f"result {f.result!r} is on no submitted handle")
                    core.check(
                        which[0] not in delivered, f"call {which[0]} delivered twice"
                    )
                    delivered.append(which[0])
                    verdict(which[0], f)
            try:
                extra = ev.wait_next()
            except RuntimeError:
                extra = None
            core.check(extra is None, "a result was delivered though none is outstanding")
            for i, h in enumerate(handles):  # still as delivered
                verdict(i, h)
        core.check(sorted(delivered) == list(range(len(handles))), "not all delivered")
        ran = [tag for tag, _ in jobs.LOG]
        core.check(
            sorted(ran) == sorted(tag_of(i) for i in range(len(handles))),
            f"calls were executed {ran}, each should be exactly once",
        )
        pids = {}
        order = [(t, pids.setdefault(pid, len(pids))) for t, pid in jobs.LOG]
        rec.state(script, kinds, order, delivered)

    def verdict(i, f):
        ok = jobs.expectation(tag_of(i), kinds[i])(f.result, f.exception)
        core.check(
            ok,
            f"call {i} ({kinds[i]}) delivered result={f.result!r} "
            f"exception={f.exception!r}",
        )

    return one


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=p["bound"])
