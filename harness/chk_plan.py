"""C16: benchmark plans (spec/Plan.tla)"""
import contextlib
import hashlib
import io
import pickle
import random
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.benchmark import core, xpbase
from nevergrad.functions import ExperimentFunction

from common import Check, split_cfg
from util import collect, pmap

PLAN = "verif_plan"
SUGGESTED = (3.25, -1.5)
OPTIMS = ["OnePlusOne", "RandomSearch", "DE", "ScrHammersleySearch", "PSO", "TwoPointsDE"]


class Failure(Exception):
    pass


class World:
    cfg: tp.Any = None  # configuration of the plan
    chunk: tp.Any = None  # chunk which is computed
    number = 0  # of this chunk
    stop = 0
    count = 0
    log: tp.List[tp.Any] = []
    completed: tp.Dict[tp.Any, tp.List[int]] = {}
    suggested: tp.Dict[tp.Any, int] = {}  # evaluations of the suggested value


class PlanFunction(ExperimentFunction):
    """each copy of a wild function is another function, as for the translated artificial functions"""

    def __init__(self, number: int, bad: int = 0, slow: int = 0, wild: int = 0) -> None:
        self.number, self.bad, self.slow = number, bad, slow
        super().__init__(self._evaluate, ng.p.Array(shape=(2,)).set_name(""))
        self.shift = int(self.parametrization.random_state.randint(100)) if wild else 0

    def _loss(self, x: np.ndarray) -> int:
        return int(1000 * float(np.abs(x).sum())) + 7000 * self.shift

    def _evaluate(self, x: np.ndarray) -> float:
        if World.chunk is None:
            return float(self._loss(x))
        key = (World.number, len(World.chunk.summaries))
        done = World.completed.setdefault(key, [])
        World.count += 1
        entry = dict(x=self.number, ok=False)
        World.log.append(entry)
        if World.count == World.stop:
            raise KeyboardInterrupt
        if self.bad and len(done) + 1 >= self.bad:
            raise Failure()
        entry["ok"] = True
        done.append(self._loss(x))
        if tuple(x) == SUGGESTED:
            World.suggested[key] = World.suggested.get(key, 0) + 1
        return float(done[-1])

    def evaluation_function(self, *recommendations: tp.Any) -> float:
        assert len(recommendations) == 1
        return float(self._loss(recommendations[0].value))

    def compute_pseudotime(self, input_parameter: tp.Any, loss: tp.Any) -> float:
        return 1.0 + (int(loss) * 7 + self.number) % 5 if self.slow else 1.0


def plan(seed: tp.Optional[int] = None) -> tp.Iterator[xpbase.Experiment]:
    seedg = xpbase.create_seed_generator(seed)
    c = World.cfg
    for i in range(c["L"]):
        func = PlanFunction(100 * (seed or 0) + i + 1, c["bad"][i], c["slow"][i], c["wild"][i])
        xpseed = next(seedg)
        if not c["raw"] and xpseed is not None:  # known finding: the seeds of the generator are refused
            xpseed = int(xpseed)
        yield xpbase.Experiment(func, c["opt"][i], budget=c["b"][i], num_workers=c["W"][i], batch_mode=c["batch"][i],
                                seed=xpseed, suggestions=[np.array(SUGGESTED)] if c["sugg"][i] else None)


def register() -> None:
    if PLAN not in xpbase.registry:
        xpbase.registry.register_name(PLAN, plan)


@contextlib.contextmanager
def quiet() -> tp.Iterator[None]:
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield


def row(s: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
    items = sorted((k, repr(v)) for k, v in s.items() if k != "elapsed_time")
    loss = float(s["loss"])
    budget = float(s["elapsed_budget"])
    return dict(x=int(s["number"]), error=s["error"], loss=int(loss) if np.isfinite(loss) else -1,
                budget=int(budget) if np.isfinite(budget) else -1,
                digest=hashlib.md5(repr(items).encode()).hexdigest()[:12])


class Executor:
    """runs the chunks in the process"""

    def submit(self, fn: tp.Any, *args: tp.Any) -> tp.Any:
        class Job:
            def result(self) -> tp.Any:
                return fn(*args)

        return Job()


class Runner:
    def __init__(self, cfg: tp.Dict[str, tp.Any]) -> None:
        register()
        n = cfg["L"]
        for k, v in dict(opt=["OnePlusOne"] * n, W=[1] * n, batch=[True] * n, slow=[0] * n, wild=[i % 2 for i in range(n)], sugg=[(i + 1) % 2 for i in range(n)], raw=0, strict=0).items():
            cfg.setdefault(k, v)
        World.cfg, World.completed, World.suggested = cfg, {}, {}
        self.cfg = cfg
        self.chunks = [core.BenchmarkChunk(PLAN, repetitions=cfg["reps"], seed=cfg["seed"] or None, cap_index=cfg["cap"] or None)]
        self.ev: tp.List[tp.Any] = [dict(k="new", len=len(self.chunks[0]), id=self.chunks[0].id)]

    def do(self, h: tp.Dict[str, tp.Any]) -> None:
        e = dict(h)
        chunk = self.chunks[h["c"] - 1] if "c" in h else None
        if h["k"] == "split":
            parts = chunk.split(h["n"])
            self.chunks += parts
            e.update(lens=[len(x) for x in parts], ids=[x.id for x in parts])
        elif h["k"] == "iter":
            items = list(chunk)
            e.update(len=len(chunk), ks=[k for k, _ in items], xs=[int(x.function.descriptors["number"]) for _, x in items],
                     seeds=[-1 if x.seed is None else int(x.seed) % 1000003 for _, x in items])
        elif h["k"] == "pickle":
            e["err"] = ""
            try:
                self.chunks[h["c"] - 1] = pickle.loads(pickle.dumps(chunk))
            except Exception as err:  # pylint: disable=broad-except
                e["err"] = repr(err)
        elif h["k"] == "launch":
            World.chunk = None
            with quiet():
                df = core.compute(PLAN, num_workers=h["n"], seed=self.cfg["seed"] or None, executor=Executor(),
                                  cap_index=self.cfg["cap"] or None)
            e["xs"] = [int(x) for x in df.loc[:, "number"]]
        elif h["k"] == "compute":
            World.chunk, World.number, World.stop, World.count, World.log = chunk, h["c"], h["s"], 0, []
            count = [0]

            def process(_: tp.Any, __: tp.Any) -> None:
                count[0] += 1
                if count[0] == h["p"]:
                    raise Failure()

            e.update(out="done", ret=-1)
            with quiet():
                try:
                    e["ret"] = len(chunk.compute(process))
                except KeyboardInterrupt:
                    e["out"] = "interrupted"
                except Failure:
                    e["out"] = "failed"
                except Exception as err:  # pylint: disable=broad-except
                    e["out"] = repr(err)
            e.update(log=World.log, rows=[row(s) for s in chunk.summaries],
                     sugg=[World.suggested.get((h["c"], j), 0) for j in range(len(chunk.summaries))],
                     best=[min(World.completed.get((h["c"], j), [0]), default=0) for j in range(len(chunk.summaries))])
            World.chunk = None
        self.ev.append(e)

    def trace(self, **info: tp.Any) -> tp.Dict[str, tp.Any]:
        return dict(cfg=self.cfg, ev=self.ev, info=info)


def replay(job: tp.Any) -> tp.Any:
    cfg, hists = job
    out = []
    for hist in hists:
        r = Runner(dict(cfg))
        for h in hist:
            r.do(h)
            if h["k"] == "split":
                r.do(dict(k="iter", c=len(r.chunks)))
        out.append(r.trace(history=hist))
    return out


def randomized(job: tp.Any) -> tp.Any:
    rng = random.Random(f"plan{job}")
    L = rng.randint(1, 7)
    b = [rng.choice([1, 2, 5, 13]) for _ in range(L)]
    W = [min(x, rng.choice([1, 1, 2, 4])) for x in b]
    cfg = dict(L=L, cap=rng.choice([0, 0, 1, 3, 10]), reps=rng.randint(1, 4), seed=rng.choice([0, 1, 12, 1000]), b=b,
               bad=[rng.randint(1, 6) if rng.random() < 0.15 else 0 for _ in b], W=W, opt=[rng.choice(OPTIMS) for _ in b],
               batch=[rng.random() < 0.5 for _ in b], slow=[rng.randint(0, 1) for _ in b], wild=[rng.randint(0, 1) for _ in b],
               sugg=[int(rng.random() < 0.3) for _ in b])
    r = Runner(cfg)
    for _ in range(rng.randint(2, 14)):
        c = rng.randint(1, len(r.chunks))
        u = rng.random()
        if u < 0.2 and len(r.chunks) < 40:
            r.do(dict(k="split", c=c, n=rng.randint(1, 7)))
        elif u < 0.3:
            r.do(dict(k="iter", c=c))
        elif u < 0.4:
            r.do(dict(k="pickle", c=c))
        elif u < 0.44:
            r.do(dict(k="launch", n=rng.randint(1, 5)))
        elif u < 0.7:
            r.do(dict(k="compute", c=c, s=rng.choice([1, 1, 2, 3, 5, 9, 15, 30]), p=0))
        else:
            r.do(dict(k="compute", c=c, s=0, p=rng.choice([0, 0, 0, 1, 2])))
    return r.trace(job=job)


def known(job: tp.Any) -> tp.Any:
    """seeds of the generator, and resumed experiments on random functions or with suggestions"""
    rng = random.Random(f"known{job}")
    n = rng.randint(1, 3)
    raw = job % 2
    cfg = dict(L=n, cap=0, reps=1, seed=rng.choice([1, 12]), b=[rng.choice([3, 6])] * n, bad=[0] * n, wild=[1 - raw] * n, sugg=[1 - raw] * n, raw=raw, strict=1 - raw)
    r = Runner(cfg)
    if not raw:
        r.do(dict(k="compute", c=1, s=rng.randint(2, 8), p=0))
    r.do(dict(k="compute", c=1, s=0, p=0))
    return r.trace(job=job)


def run_C16(chk: Check) -> None:
    invs = ["InvPartition", "InvAll", "InvBudget", "InvOrder", "InvMine"]
    jobs = []
    for v in [1, 2, 3]:
        consts = dict(Variant=v, MaxLen=chk.scale(4, 5), EMIT=False)
        chk.model("PlanMC", split_cfg("Spec", consts, invs=invs), name=f"plan {v}")
        if chk.quick:
            hists = chk.behaviours("PlanMC", split_cfg("Spec", dict(consts, MaxLen=3, EMIT=True)), name=f"histories {v}")
            if v > 1:  # half of them
                hists = [h for i, h in enumerate(hists) if i % 2 == chk.seed % 2]
        else:
            hists = chk.behaviours("PlanMC", split_cfg("Spec", dict(consts, MaxLen=4, EMIT=True)), name=f"histories {v}")
        jobs += [(hists[0]["cfg"], [h["hist"] for h in hists[i : i + 40]]) for i in range(0, len(hists), 40)]
    traces = collect(chk, pmap(replay, jobs, timeout=600), "histories")
    chk.behaviours_replayed += len(traces)
    chk.judge("PlanT", traces, "behaviours of the model on the real benchmark")
    n = chk.scale(240, 4000)
    traces = collect(chk, pmap(randomized, [chk.seed * 100000 + i for i in range(n)], timeout=300, chunksize=5), "random histories")
    chk.judge("PlanT", traces, "random histories")
    known_ = collect(chk, pmap(known, list(range(chk.scale(40, 400))), timeout=300, chunksize=5), "resumed experiments")
    chk.judge("PlanT", [t for t in known_ if t["cfg"]["raw"]], "seeds of the generator")
    chk.judge("PlanT", [t for t in known_ if not t["cfg"]["raw"]], "resumed experiments")

    def has(t: tp.Any) -> tp.Any:
        return [e for e in t["ev"] if e["k"] == "compute" and e["rows"] and e["log"] and not any(r["error"] for r in e["rows"])]

    clean = next(t for t in traces if has(t))

    def evaluated(t: tp.Any) -> None:
        has(t)[0]["log"].pop()

    def loss(t: tp.Any) -> None:
        has(t)[0]["rows"][0]["loss"] += 1

    def lost(t: tp.Any) -> None:
        has(t)[0]["rows"].pop()

    chk.selftest("PlanT", clean, evaluated, "missing evaluation")
    chk.selftest("PlanT", clean, loss, "loss which was not observed")
    chk.selftest("PlanT", clean, lost, "missing row")
