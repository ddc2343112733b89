"""C20: executor with simulated time (spec/Executor.tla)"""
import random
import typing as tp

import nevergrad as ng
from nevergrad.benchmark import execution
from nevergrad.functions import ExperimentFunction

from common import Check, split_cfg
from util import collect, pmap


class Fault(KeyboardInterrupt):
    pass


class Func(ExperimentFunction):
    """job number i, with its delay and its failures"""

    def __init__(self) -> None:
        super().__init__(self._evaluate, ng.p.Scalar().set_name(""))
        self.delays: tp.List[tp.Any] = []
        self.faults: tp.List[int] = []
        self.calls: tp.List[int] = []

    def _evaluate(self, i: int) -> float:
        self.calls[i - 1] += 1
        if self.calls[i - 1] <= self.faults[i - 1]:
            raise Fault()
        return float(i)

    def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
        return self.delays[input_parameter[0][0] - 1]


class Runner:
    def __init__(self, batch: bool, plain: bool = False, again: bool = False) -> None:
        self.again = again  # results can be read again
        self.read: tp.Set[int] = set()
        self.func = Func()
        self.plain = plain
        self.executor = execution.MockedTimedExecutor(batch)
        self.jobs: tp.List[tp.Any] = []
        self.ev: tp.List[tp.Any] = []

    def do(self, h: tp.Dict[str, tp.Any]) -> None:
        f = self.func
        e = dict(h)
        if h["k"] == "submit":
            e.setdefault("d", 1)
            f.delays.append(e["d"])
            f.faults.append(e["f"])
            f.calls.append(0)
            fn = (lambda *a: f(*a)) if self.plain else f
            self.jobs.append(self.executor.submit(fn, len(self.jobs) + 1))
            e["res"] = "ok"
        elif h["k"] == "done":
            try:
                out = self.jobs[h["i"] - 1].done()
                e["res"] = "yes" if out is True else "no" if out is False else repr(out)
            except Fault:
                e["res"] = "fails"
            except Exception as err:  # pylint: disable=broad-except
                e["res"] = repr(err)
        else:
            if h["i"] in self.read and not self.again:
                return
            e["v"] = -1
            try:
                e["v"] = int(self.jobs[h["i"] - 1].result())
                e["res"] = "ok"
                self.read.add(h["i"])
            except Fault:
                e["res"] = "fails"
            except RuntimeError:
                e["res"] = "refused"
            except Exception as err:  # pylint: disable=broad-except
                e["res"] = repr(err)
        e.update(time=int(self.executor.time), calls=list(f.calls), fails=list(f.faults))
        self.ev.append(e)


def replay(job: tp.Any) -> tp.Any:
    batch, hists, again = job
    out = []
    for hist in hists:
        r = Runner(batch, again=again)
        for h in hist:
            r.do(h)
        out.append(dict(cfg=dict(batch=batch), ev=r.ev, info=dict(history=hist)))
    return out


def randomized(job: tp.Any) -> tp.Any:
    rng = random.Random(f"executor{job}")
    batch = rng.random() < 0.3
    plain = rng.random() < 0.2
    r = Runner(batch, plain)
    top = rng.choice([1, 3, 20])
    faults = rng.choice([0, 0, 0.2])
    style = rng.choice(["any", "workers", "workers"])
    workers = rng.randint(1, 6)
    running: tp.List[int] = []
    for _ in range(rng.choice([10, 40, 120])):
        submit = dict(k="submit", d=1 if plain else rng.randint(-1, top), f=rng.randint(1, 2) if rng.random() < faults else 0)
        if style == "any":
            if not r.jobs or rng.random() < 0.3:
                r.do(submit)
            else:
                r.do(dict(k=rng.choice(["done", "result"]), i=rng.randint(1, len(r.jobs))))
        elif len(running) < workers:
            r.do(submit)
            running.append(len(r.jobs))
        else:  # what minimize does
            for i in list(running):
                r.do(dict(k="done", i=i))
                if r.ev[-1]["res"] == "yes":
                    r.do(dict(k="result", i=i))
                    running.remove(i)
    return dict(cfg=dict(batch=batch), ev=r.ev, info=dict(job=job))


def run_C20(chk: Check) -> None:
    invs = ["InvOne", "InvTime", "InvOrder", "InvEv"]
    jobs = []
    for batch in [False, True]:
        consts = dict(Batch=batch, MaxLen=chk.scale(7, 8), MaxJobs=3, Delays={0, 1, 3}, Faults={0}, EMIT=False)
        chk.model("ExecutorMC", split_cfg("Spec", consts, invs=invs, props=["Monotone"]), name=f"batch={batch}")
        consts.update(MaxLen=chk.scale(6, 7), Delays={0, 2}, Faults={0, 1})
        chk.model("ExecutorMC", split_cfg("Spec", consts, invs=invs, props=["Monotone"]), name=f"batch={batch} faults")
        for kw in [dict(MaxLen=chk.scale(6, 7), Delays={0, 1, 2}, Faults={0}), dict(MaxLen=chk.scale(5, 6), Delays={0, 2}, Faults={0, 1})]:
            hists = chk.behaviours("ExecutorMC", split_cfg("Spec", dict(consts, EMIT=True, **kw)), name=f"histories batch={batch}")
            jobs += [(batch, hists[i : i + 500], False) for i in range(0, len(hists), 500)]
            jobs += [(batch, hists[chk.seed % 7 :: 7][:500], True)]
    traces = collect(chk, pmap(replay, [j for j in jobs if not j[2]], timeout=300), "histories")
    chk.behaviours_replayed += len(traces)
    chk.judge("ExecutorT", traces, "behaviours of the model on the real executor")
    traces = collect(chk, pmap(replay, [j for j in jobs if j[2]], timeout=300), "histories")
    chk.judge("ExecutorT", traces, "results which are read again")
    n = chk.scale(400, 6000)
    traces = collect(chk, pmap(randomized, [chk.seed * 100000 + i for i in range(n)], timeout=300, chunksize=20), "random histories")
    chk.judge("ExecutorT", traces, "random histories")
    clean = next(t for t in traces if not t["cfg"]["batch"] and sum(e["res"] == "yes" for e in t["ev"]) > 2)

    def time(t: tp.Any) -> None:
        t["ev"][-1]["time"] += 1

    def early(t: tp.Any) -> None:
        next(e for e in t["ev"] if e["res"] == "yes")["res"] = "no"

    def twice(t: tp.Any) -> None:
        t["ev"][-1]["calls"][0] += 1

    chk.selftest("ExecutorT", clean, time, "wrong time")
    chk.selftest("ExecutorT", clean, early, "job is not done")
    chk.selftest("ExecutorT", clean, twice, "evaluated twice")
