"""C04 minimize(): spec/Minimize.tla"""
import random
import threading
import time
import typing as tp
from concurrent import futures

import numpy as np

from common import Check, split_cfg
from util import Tokens, collect, pmap
import zoo

INVS = ["InvNoLoss", "InvWorkers", "InvBudget", "InvToldDone", "InvReturned", "InvBatch"]


class Injected(RuntimeError):
    pass


class Job:
    def __init__(self, ex: "Scripted", ident: int) -> None:
        self.ex = ex
        self.ident = ident
        self._done = False

    def done(self) -> bool:
        return self.ex.poll(self)

    def result(self) -> tp.Any:
        if not self._done:
            self.ex.complete(self)
        if ("tellfault", self.ident) in self.ex.faults:
            self.ex.faults.remove(("tellfault", self.ident))
            raise Injected("objective")
        return self.ex.run.losses[self.ident]


class Scripted:
    """Executor completing the jobs as scheduled: sweeps[i] is the set of jobs which are done at the i-th inspection"""

    def __init__(self, run: "Run", sweeps: tp.List[tp.Set[int]], faults: tp.List[tp.Tuple[str, int]]) -> None:
        self.run = run
        self.sweeps = sweeps
        self.faults = faults
        self.num = -1
        self.last = 10**9

    def submit(self, fn: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> Job:
        ident = self.run.last
        if ("submitfault", ident) in self.faults:
            self.faults.remove(("submitfault", ident))
            self.run.ev.append(dict(k="submiterr", id=ident))
            raise Injected("executor")
        self.run.submitted(ident, fn, args, kwargs)
        return Job(self, ident)

    def complete(self, job: Job) -> None:
        job._done = True
        cand = self.run.cands[job.ident]
        self.run.ev.append(dict(k="done", id=job.ident, loss=int(self.run.objective(*cand.args, **cand.kwargs))))

    def poll(self, job: Job) -> bool:
        if job._done:
            return True
        if job.ident <= self.last:
            self.num += 1
        self.last = job.ident
        if self.num >= len(self.sweeps) or job.ident in self.sweeps[self.num]:
            self.complete(job)
        return job._done


class Run:
    def __init__(self, name: str, pname: str, budget: int, workers: int, seed: int) -> None:
        self.ev: tp.List[tp.Dict[str, tp.Any]] = []
        param = zoo.param(pname)
        param.random_state.seed(seed)
        self.opt = zoo.make(name, param, budget=budget, num_workers=workers)
        self.ids = Tokens()
        self.cands: tp.Dict[int, tp.Any] = {}
        self.losses: tp.Dict[int, float] = {}
        self.keys: tp.Dict[tp.Any, tp.List[int]] = {}
        self.last = 0
        self.lock = threading.Lock()
        self.cv: tp.Dict[int, tp.List[float]] = {}
        self._ask, self._tell = self.opt.ask, self.opt.tell
        self.opt.ask, self.opt.tell = self.ask, self.tell
        self.use_cv = False

    @staticmethod
    def cvf(i: int) -> tp.Any:
        # the constraint functions of minimize receive the value of the candidate
        def func(value: tp.Any) -> float:
            return float(len(repr(value)) % (3 + i)) - 3.0  # never violated

        return func

    def objective(self, *args: tp.Any, **kwargs: tp.Any) -> float:
        from util import freeze_value

        with self.lock:
            ident = self.keys[freeze_value((args, kwargs), 12)][0]
        return self.losses[ident]

    def ask(self) -> tp.Any:
        from util import freeze_value
        from nevergrad.common.errors import NevergradEarlyStopping

        try:
            cand = self._ask()
        except NevergradEarlyStopping:
            self.ev.append(dict(k="stop"))
            raise
        except Exception:
            self.ev.append(dict(k="askerr"))
            raise
        ident = self.ids(cand.uid)
        key = freeze_value((cand.args, cand.kwargs), 12)
        with self.lock:
            self.cands[ident] = cand
            same = self.keys.setdefault(key, [])
            same.append(ident)
            # equal points have the same loss
            self.losses[ident] = self.losses[same[0]] if len(same) > 1 else float((7 * ident) % 101)
        self.last = ident
        self.ev.append(dict(k="ask", id=ident))
        return cand

    def tell(self, cand: tp.Any, loss: tp.Any, constraint_violation: tp.Any = None, **kwargs: tp.Any) -> None:
        ident = self.ids(cand.uid)
        expected = [self.cvf(0)(cand.value), self.cvf(1)(cand.value)] if self.use_cv else None
        got = None if constraint_violation is None else [float(x) for x in constraint_violation]
        self._tell(cand, loss, constraint_violation, **kwargs)
        self.ev.append(dict(k="tell", id=ident, loss=int(loss), cvok=got == expected))

    def submitted(self, ident: int, fn: tp.Any, args: tp.Any, kwargs: tp.Any) -> None:
        from util import freeze_value

        cand = self.cands[ident]
        ok = freeze_value((args, kwargs), 12) == freeze_value((cand.args, cand.kwargs), 12)
        self.ev.append(dict(k="submit", id=ident, ok=ok))

    def minimize(self, executor: tp.Any, batch: bool, max_time: tp.Optional[float] = None, best: bool = True) -> bool:
        self.ev.append(dict(k="call", timeout=max_time is not None))
        kwargs: tp.Dict[str, tp.Any] = {}
        if self.use_cv:
            kwargs["constraint_violation"] = [self.cvf(0), self.cvf(1)]
        try:
            out = self.opt.minimize(self.objective, executor=executor, batch_mode=batch, max_time=max_time, **kwargs)
        except Exception as e:  # pylint: disable=broad-except
            self.ev.append(dict(k="raise", expected=isinstance(e, Injected), error=repr(e)[:200]))
            return False
        e = dict(k="return", nask=int(self.opt.num_ask), ntell=int(self.opt.num_tell))
        if best:
            x = out.get_standardized_data(reference=self.opt.parametrization)
            ids = [i for i, c in self.cands.items()
                   if np.array_equal(x, c.get_standardized_data(reference=self.opt.parametrization))]
            told = {t["id"] for t in self.ev if t["k"] == "tell"}
            ids = [i for i in ids if i in told]
            e["best"] = ids[0] if ids else 0
        self.ev.append(e)
        return True

    def trace(self, workers: int, batch: bool, budget: int, info: tp.Any) -> tp.Dict[str, tp.Any]:
        return dict(cfg=dict(budget=budget, workers=workers, batch=batch), ev=self.ev, info=info)


BEST = {"OnePlusOne", "RandomSearch", "DE", "TwoPointsDE", "LHSSearch"}


def replay(job: tp.Any) -> tp.Any:
    from nevergrad.common.errors import NevergradEarlyStopping

    name, pname, budget, workers, batch, hists = job
    out = []
    for hist in hists:
        run = Run(name, pname, budget, workers, 12)
        sweeps = [set(h["x"]) for h in hist if h["a"] == "split" and h["r"]]
        faults = [(h["a"], h["x"]) for h in hist if h["a"] in ("tellfault", "submitfault")]
        asks = {h["x"]: h["a"] for h in hist if h["a"] in ("stop", "askfault")}
        run.use_cv = len(hist) % 3 == 0

        def callback(opt: tp.Any, asks: tp.Any = asks) -> None:
            kind = asks.pop(opt.num_ask + 1, None)
            if kind == "stop":
                raise NevergradEarlyStopping("stop")
            if kind is not None:
                raise Injected("ask")

        run.opt.register_callback("ask", callback)
        executor = Scripted(run, sweeps, faults)
        for _ in range(6):
            if run.minimize(executor, batch, best=name in BEST):
                break
        if len(hist) % 2:  # calling it once more is harmless
            run.minimize(executor, batch, best=name in BEST)
        out.append(run.trace(workers, batch, budget, dict(optimizer=name, history=hist)))
    return out


class Delayed:
    """Real executor (threads), the events are recorded"""

    def __init__(self, run: Run, pool: tp.Any, rng: random.Random, fail: float) -> None:
        self.run, self.pool, self.rng, self.fail = run, pool, rng, fail

    def submit(self, fn: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        ident = self.run.last
        delay = self.rng.choice([0, 0, 0.001, 0.003])
        self.run.submitted(ident, fn, args, kwargs)

        def func() -> float:
            time.sleep(delay)
            loss = fn(*args, **kwargs)
            self.run.ev.append(dict(k="done", id=ident, loss=int(loss)))
            return loss

        if self.pool is None:
            return _Lazy(func)
        return self.pool.submit(func)


class _Lazy:
    """executes when the result is required, as the sequential executor does"""

    def __init__(self, func: tp.Any) -> None:
        from nevergrad.optimization import utils

        self.job = utils.SequentialExecutor().submit(func)

    def done(self) -> bool:
        return self.job.done()

    def result(self) -> float:
        return self.job.result()


def threads(job: tp.Any) -> tp.Any:
    name, pname, seed = job
    rng = random.Random(f"{job}")
    budget = rng.randint(3, 14)
    workers = rng.choice([1, 2, 3, 5])
    batch = rng.random() < 0.4
    run = Run(name, pname, budget, workers, seed)
    workers = run.opt.num_workers
    run.use_cv = rng.random() < 0.3
    pre = rng.choice([0, 0, 1, 2, 2 if "LHS" in name else budget + 1])
    if pre:
        ask, tell = run._ask, run._tell
        for _ in range(pre):
            c = ask()
            tell(c, 500.0)
        run.ev.append(dict(k="pre", nask=pre, ntell=pre))
    with futures.ThreadPoolExecutor(max_workers=workers) as pool:
        ex = Delayed(run, pool if rng.random() < 0.7 else None, rng, 0.0)
        if rng.random() < 0.3:
            run.minimize(ex, batch, max_time=rng.choice([0.0, 0.002, 0.004]), best=False)
        run.minimize(ex, batch, best=name in BEST and not pre)
    return run.trace(workers, batch, budget, dict(job=job, pre=pre))


def run_C04(chk: Check) -> None:
    def cfg(**kw: tp.Any) -> str:
        consts: tp.Dict[str, tp.Any] = dict(Budget=3, Workers=2, Batch=False, MaxFaults=1, MaxIdle=1, Stops=True, EMIT=False)
        consts.update(kw)
        return split_cfg("Spec", consts, invs=INVS, props=["ToldOnce"] + ([] if consts["EMIT"] else ["Terminates"]))

    for batch in (False, True):
        for b, w, f in ((4, 2, 2), (5, 3, 1), (3, 4, 2)) if chk.quick else ((5, 2, 3), (6, 3, 2), (6, 4, 2), (7, 3, 1)):
            chk.model("Minimize", cfg(Budget=b, Workers=w, MaxFaults=f, Batch=batch, MaxIdle=2), name=f"B{b}W{w}F{f}{batch}")
    settings = [(3, 2, 1), (2, 1, 2), (3, 3, 1)] if chk.quick else [(3, 2, 2), (4, 3, 1), (4, 2, 1), (2, 1, 2)]
    jobs = []
    rng = random.Random(chk.seed)
    for b, w, f in settings:
        for batch in (False, True):
            hists = chk.behaviours("Minimize", cfg(Budget=b, Workers=w, MaxFaults=f, Batch=batch, EMIT=True), name="emit")
            rng.shuffle(hists)
            if chk.quick:
                hists = hists[:1600]
            names = ["OnePlusOne", "DE"] if chk.quick else ["OnePlusOne", "DE", "CMA", "PSO", "RandomSearch"]
            for i, name in enumerate(names):
                for k in range(i, len(hists), 100 * len(names)):
                    jobs.append((name, "array2", b, w, batch, hists[k : k + 100 * len(names) : len(names)]))
    traces = collect(chk, pmap(replay, jobs, timeout=200), "minimize")
    chk.behaviours_replayed += len(traces)
    chk.judge("MinimizeT", traces, "schedules of the model")
    jobs = []
    names = ["OnePlusOne", "RandomSearch", "DE", "PSO", "CMA", "NGOpt", "ES", "ParaPortfolio", "SQP", "LHSSearch", "NelderMead"]
    for name in names:
        for s in range(chk.scale(14, 150)):
            jobs.append((name, rng.choice(["array2", "bounded", "instru", "mixed"]), chk.seed * 1000 + s))
    traces2 = collect(chk, pmap(threads, jobs, timeout=60), "minimize with threads")
    chk.judge("MinimizeT", traces2, "threads, sequential executor, time limits")
    good = next(t for t in traces if sum(e["k"] == "tell" for e in t["ev"]) > 2)

    def drop(t: tp.Any) -> None:
        i = max(i for i, e in enumerate(t["ev"]) if e["k"] == "tell")
        del t["ev"][i]

    def twice(t: tp.Any) -> None:
        i = max(i for i, e in enumerate(t["ev"]) if e["k"] == "tell")
        t["ev"].insert(i, t["ev"][i])

    chk.selftest("MinimizeT", good, drop, "a result was not told")
    chk.selftest("MinimizeT", good, twice, "a result was told twice")
