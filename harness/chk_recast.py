"""C10: ask/tell over libraries running in a thread (spec/Recast.tla)"""
import gc
import pickle
import queue
import random
import threading
import time
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.common import errors
from nevergrad.optimization import base as obase
from nevergrad.optimization import recaster

from common import Check, split_cfg
from util import collect, pmap
import zoo


class World:
    """What is recorded (global: the optimized function must be independent of the optimizer)"""

    ev: tp.List[tp.Any] = []
    workers = 0
    threads: tp.List[threading.Thread] = []
    jitter: tp.Optional[random.Random] = None


class LibError(Exception):
    pass


class Library:
    """the library: nb batches of bs points, then returns or raises"""

    def __init__(self, nb: int, bs: int, ending: str, batch: bool) -> None:
        self.nb, self.bs, self.ending, self.batch = nb, bs, ending, batch

    def __call__(self, func: tp.Callable[..., tp.Any]) -> tp.Any:
        World.workers += 1
        w = World.workers
        World.threads.append(threading.current_thread())
        for b in range(1, self.nb + 1):
            if World.jitter is not None:
                time.sleep(World.jitter.choice([0, 0, 0.001, 0.004]))
            points = [np.array([b, i], dtype=float) for i in range(1, self.bs + 1)]
            out = func(points if self.batch else points[0])
            World.ev.append(dict(k="recv", w=w, vec=[int(x) for x in np.atleast_1d(out)]))
        if self.ending == "error":
            raise LibError("library failed")
        return np.array([1.0, 1.0])


class Seq(recaster.SequentialRecastOptimizer):
    lib: tp.Any = None

    def get_optimization_function(self) -> tp.Any:
        return type(self).lib


class Bat(recaster.BatchRecastOptimizer):
    lib: tp.Any = None

    def get_optimization_function(self) -> tp.Any:
        return type(self).lib


class Turns:
    """Forces the order of the operations on the queues ("m": main thread, "w": worker)"""

    def __init__(self, schedule: tp.Sequence[str]) -> None:
        self.schedule = list(schedule)
        self.cond = threading.Condition()
        self.misses = 0

    def turn(self, who: str) -> None:
        with self.cond:
            ok = self.cond.wait_for(lambda: not self.schedule or self.schedule[0] == who, timeout=0.02)
            if not ok:
                self.misses += 1
            if self.schedule and ok:
                self.schedule.pop(0)
            self.cond.notify_all()


_TURNS: tp.List[tp.Optional[Turns]] = [None]
_Queue = queue.Queue


def _who() -> str:
    return "m" if threading.current_thread() is threading.main_thread() else "w"


class TurnQueue(_Queue):  # type: ignore
    def put(self, item: tp.Any, *a: tp.Any, **k: tp.Any) -> None:
        t = _TURNS[0]
        who = _who()
        if t is not None and not (who == "m" and item is None):
            t.turn(who)
        super().put(item, *a, **k)
        if who == "w" and (item is None or isinstance(item, Exception)):
            if t is not None:
                t.turn(who)
            elif World.jitter is not None:
                time.sleep(World.jitter.choice([0, 0.003, 0.01]))

    def get(self, *a: tp.Any, **k: tp.Any) -> tp.Any:
        t = _TURNS[0]
        if t is not None:
            t.turn(_who())
        return super().get(*a, **k)


class Runner:
    def __init__(self, opt: tp.Any, bs: int, lib: bool = False) -> None:
        self.opt = opt
        self.bs = bs
        self.lib = lib
        self.cands: tp.Dict[int, tp.Any] = {}
        self.randoms: tp.List[tp.Any] = []
        self.outstanding: tp.List[int] = []
        self.count = 0

    def ask(self) -> str:
        res, p = "point", 0
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                cand = self.opt.ask()
            except recaster.TooManyAskError:
                res = "refused"
            except Exception:  # pylint: disable=broad-except
                res = "error"
        if res == "point":
            if any(issubclass(x.category, errors.FinishedUnderlyingOptimizerWarning) for x in caught):
                res = "random"
                self.randoms.append(cand)
            else:
                self.count += 1
                x = np.asarray(cand.get_standardized_data(reference=self.opt.parametrization)).ravel()
                p = self.count if self.lib else int(round(10 * x[0] + x[1]))
                self.cands[p] = cand
                self.outstanding.append(p)
        World.ev.append(dict(k="ask", res=res, p=p))
        return res

    def tell(self, p: int, cand: tp.Any = None, asked: bool = True) -> None:
        loss = (7 * p) % 11 if p else 3
        e = dict(k="tell", p=p, loss=loss, res="", asked=asked)
        World.ev.append(e)  # before the loss can be received
        try:
            self.opt.tell(self.cands[p] if cand is None else cand, float(loss))
        except errors.TellNotAskedNotSupportedError:
            e["res"] = "refused"
        except Exception:  # pylint: disable=broad-except
            e["res"] = "error"
        if p in self.outstanding:
            self.outstanding.remove(p)

    def external(self) -> None:
        self.tell(0, self.opt.parametrization.sample(), asked=False)

    def pickle(self) -> None:
        err = ""
        try:
            new = pickle.loads(pickle.dumps(self.opt))
            self.opt = new
        except Exception as e:  # pylint: disable=broad-except
            err = repr(e)[:100]
        World.ev.append(dict(k="pickle", err=err))

    def drop(self) -> None:
        self.opt = None
        gc.collect()
        for t in World.threads:
            t.join(4)
        World.ev.append(dict(k="drop", stopped=not any(t.is_alive() for t in World.threads)))


def _build(nb: int, bs: int, ending: str, batch: bool) -> tp.Any:
    World.ev, World.workers, World.threads = [], 0, []
    cls: tp.Any = Bat if batch else Seq
    cls.lib = Library(nb, bs, ending, batch)
    param = ng.p.Array(shape=(2,))
    param.random_state.seed(12)
    return cls(param, budget=50, num_workers=max(1, bs) if batch else 1)


def replay(job: tp.Any) -> tp.Any:
    nb, bs, ending, items = job
    out = []
    queue.Queue = TurnQueue  # type: ignore
    World.jitter = None
    for item in items:
        for batch in ([False, True] if bs == 1 else [True]):
            opt = _build(nb, bs, ending, batch)
            _TURNS[0] = Turns(item["sched"])
            r = Runner(opt, bs)
            for op in item["ops"]:
                if op in ("ask", "refused"):
                    r.ask()
                elif r.outstanding:
                    r.tell(r.outstanding[len(out) % len(r.outstanding)])
                if r.randoms and op == "ask":
                    r.tell(0, r.randoms.pop())
            del opt
            r.drop()
            _TURNS[0] = None
            out.append(dict(cfg=dict(nb=nb, bs=bs, ending=ending, lib=False), ev=World.ev,
                            info=dict(schedule=item, batch=batch)))
    return out


def randomized(job: tp.Any) -> tp.Any:
    seed, batch = job
    rng = random.Random(f"recast{job}")
    queue.Queue = TurnQueue  # type: ignore
    _TURNS[0] = None
    World.jitter = random.Random(seed)
    nb, bs = rng.randint(0, 4), rng.randint(1, 4) if batch else 1
    ending = rng.choice(["end", "end", "error"])
    opt = _build(nb, bs, ending, batch)
    pickling = not batch and rng.random() < 0.6
    if pickling:
        opt.enable_pickling()
    r = Runner(opt, bs)
    del opt
    for _ in range(rng.randint(3, 26)):
        u = rng.random()
        if u < 0.5:
            if r.ask() == "error":
                if rng.random() < 0.5:
                    r.ask()
                break
        elif u < 0.8 and r.outstanding:
            r.tell(rng.choice(r.outstanding))
        elif u < 0.85 and r.randoms:
            r.tell(0, r.randoms.pop())
        elif u < 0.9:
            told = [p for p in r.cands if p not in r.outstanding]
            if told and rng.random() < 0.5:
                r.tell(rng.choice(told), asked=False)
            else:
                r.external()
        elif pickling:
            r.pickle()
    r.drop()
    return dict(cfg=dict(nb=nb, bs=bs, ending=ending, lib=False), ev=World.ev, info=dict(job=job, pickling=pickling))


def libraries(job: tp.Any) -> tp.Any:
    """the recast optimizers of the registry"""
    name, pname, seed = job
    rng = random.Random(f"recastlib{job}")
    np.random.seed(seed)
    queue.Queue = TurnQueue  # type: ignore
    _TURNS[0] = None
    World.jitter = random.Random(seed)
    World.ev, World.workers, World.threads = [], 0, []
    before = set(threading.enumerate())
    param = zoo.param(pname)
    param.random_state.seed(seed)
    r = Runner(zoo.make(name, param, budget=rng.choice([10, 40]), num_workers=1), 1, lib=True)
    for _ in range(30):
        u = rng.random()
        if u < 0.55:
            r.ask()
        elif u < 0.9 and r.outstanding:
            r.tell(r.outstanding[0])
        elif r.randoms:
            r.tell(0, r.randoms.pop())
        elif u > 0.95:
            r.external()
    World.threads = [t for t in threading.enumerate() if t not in before and isinstance(t, threading.Thread)
                     and type(t).__module__.startswith("nevergrad")]
    r.drop()
    return dict(cfg=dict(nb=0, bs=1, ending="end", lib=True), ev=World.ev, info=dict(job=job))


EXIT = """
import sys, warnings
warnings.simplefilter("ignore")
import numpy as np
import nevergrad as ng
from nevergrad.optimization import recaster
def library(func):
    for k in range(1, 5):
        func([np.array([k, k], dtype=float)] * 2 if batch else np.array([k, k], dtype=float))
    return np.array([1., 1.])
name, asks, batch = sys.argv[1], int(sys.argv[2]), sys.argv[1] == "batch"
if name in ("sequential", "batch"):
    cls = recaster.BatchRecastOptimizer if batch else recaster.SequentialRecastOptimizer
    cls = type("Custom", (cls,), dict(get_optimization_function=lambda self: library))
else:
    cls = ng.optimizers.registry[name]
opt = cls(ng.p.Array(shape=(2,)), budget=30, num_workers=2 if batch else 1)
for k in range(asks):
    cand = opt.ask()
    if k < asks - 1:
        opt.tell(cand, float((cand.value ** 2).sum()))
print("end of the program", flush=True)
"""


def exits(job: tp.Any) -> tp.Any:
    """a program which stops using an optimizer before its end"""
    import os
    import subprocess
    import sys

    name, asks = job
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([str(x) for x in sys.path if x]))
    res = "exits"
    try:
        out = subprocess.run([sys.executable, "-c", EXIT, name, str(asks)], env=env, timeout=100, capture_output=True, check=False)
        if out.returncode or b"end of the program" not in out.stdout:
            res = f"fails: {out.stderr[-600:].decode()}"
    except subprocess.TimeoutExpired:
        res = "hangs"
    return dict(cfg=dict(nb=0, bs=1, ending="end", lib=True), ev=[dict(k="exit", res=res)], info=dict(job=job))


INVS = ["InvOrder", "InvLosses", "InvOneBatch", "InvNoStray", "InvRandomAtEnd"]


def run_C10(chk: Check) -> None:
    rng = random.Random(chk.seed)
    for nb, bs, ops in ([(2, 1, 9), (3, 2, 12)] if chk.quick else [(4, 1, 16), (3, 2, 18), (3, 3, 20), (2, 4, 18)]):
        for ending in ("end", "error"):
            consts = dict(NB=nb, BS=bs, ENDING=ending, MaxOps=ops, JOIN=True, EMIT=False)
            chk.model("Recast", split_cfg("Spec", consts, invs=INVS, props=["AskReturns", "ThreadStops"]),
                      name=f"nb{nb}bs{bs}{ending}ops{ops}")
    # the model tells the difference when the main thread does not wait for the death of the worker
    from common import MachineryError, run_tlc

    consts = dict(NB=1, BS=1, ENDING="end", MaxOps=4, JOIN=False, EMIT=False)
    if run_tlc("Recast", split_cfg("Spec", consts, props=["AskReturns"]), chk.work).violated is None:
        raise MachineryError("Recast: the race is not found without JOIN")
    jobs = []
    confs = [(1, 1, 5), (2, 1, 7), (2, 2, 8), (0, 1, 2)] if chk.quick else [(1, 1, 6), (2, 1, 8), (3, 1, 10), (2, 2, 10), (2, 3, 9), (0, 1, 3)]
    for nb, bs, ops in confs:
        for ending in ("end", "error"):
            consts = dict(NB=nb, BS=bs, ENDING=ending, MaxOps=ops, JOIN=True, EMIT=True)
            items = chk.behaviours("Recast", split_cfg("Spec", consts, invs=INVS), name=f"emit nb{nb}bs{bs}{ending}")
            rng.shuffle(items)
            items = items[: chk.scale(150, 3000)]
            jobs += [(nb, bs, ending, items[i : i + 8]) for i in range(0, len(items), 8)]
    traces = collect(chk, pmap(replay, jobs, timeout=60), "forced schedules")
    chk.behaviours_replayed += len(traces)
    chk.judge("RecastT", traces, "forced schedules")
    traces = collect(chk, pmap(randomized, [(chk.seed * 10000 + s, s % 2 == 1) for s in range(chk.scale(600, 8000))], timeout=30),
                     "random schedules")
    chk.judge("RecastT", traces, "random schedules")
    good = next(t for t in traces if any(e["k"] == "recv" for e in t["ev"]))

    def corrupt(t: tp.Any) -> None:
        e = next(e for e in t["ev"] if e["k"] == "recv")
        e["vec"][0] += 1

    chk.selftest("RecastT", good, corrupt, "another loss")
    names = [n for n in sorted(zoo.table_cached()) if zoo.table_cached()[n][0] < (0.25 if chk.quick else 3)
             and "Pymoo" not in n and n != "NLOPT_LN_NEWUOA_BOUND" and _sequential(n)]
    # (pymoo: the first points are not provided by the library; NEWUOA: the native code can hold the interpreter for a minute)
    jobs2 = [(n, p, chk.seed * 100 + s) for n in names for p in ("array2", "bounded") for s in range(chk.scale(3, 20))
             if zoo.supported(n, p, "seq")]
    traces = collect(chk, pmap(libraries, jobs2, timeout=40), "libraries")
    chk.notes["libraries"] = len(names)
    chk.judge("RecastT", traces, "recast libraries")
    programs = [("sequential", 2), ("batch", 1), ("Cobyla", 3), ("CmaFmin2", 1)]
    if not chk.quick:
        programs += [(n, a) for n in ["sequential", "batch", "SQP", "Powell", "NelderMead", "PymooCMAES", "RBFGS", "NGOpt"] for a in (1, 2, 9)]
    traces = collect(chk, pmap(exits, programs, timeout=150, chunksize=1), "programs")
    chk.judge("RecastT", traces, "end of the program")


def _sequential(name: str) -> bool:
    if name not in ng.optimizers.registry:
        return False
    opt = zoo.make(name, ng.p.Array(shape=(2,)), budget=20, num_workers=1)
    return isinstance(opt, recaster.SequentialRecastOptimizer)
