"""C17: optimizers by generations or from the best point (spec/Generations.tla)"""
import contextlib
import math
import random
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.optimization import optimizerlib as lib

from common import Check, split_cfg
from util import collect, pmap

SCALE = 1000
POP = ["EDA", "PCEDA", "MPCEDA", "MEDA", "TBPSA"]
CMAS: tp.Dict[str, tp.Dict[str, tp.Any]] = {
    "standard": {}, "small": dict(popsize=3), "large": dict(popsize=9), "factor": dict(popsize_factor=8.0), "diagonal": dict(diagonal=True, scale=0.5),
    "elitist": dict(elitist=True, popsize=4), "random": dict(random_init=True, scale=3.0), "short": dict(popsize=4, inopts=dict(maxiter=2)), "fast": dict(fcmaes=True),
    "speed": dict(popsize=4, high_speed=False, inopts=dict(maxiter=1)),
}


class Steps(np.random.RandomState):
    """remembers the random vectors"""

    def __init__(self, seed: int) -> None:
        super().__init__(seed)
        self.vectors: tp.List[np.ndarray] = []

    def normal(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        out = super().normal(*args, **kwargs)
        if np.ndim(out):
            self.vectors.append(np.array(out, copy=True))
        return out

    def randn(self, *args: tp.Any) -> tp.Any:
        out = super().randn(*args)
        if np.ndim(out):
            self.vectors.append(np.array(out, copy=True))
        return out

    def standard_normal(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        out = super().standard_normal(*args, **kwargs)
        if np.ndim(out):
            self.vectors.append(np.array(out, copy=True))
        return out

    def standard_cauchy(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
        out = super().standard_cauchy(*args, **kwargs)
        if np.ndim(out):
            self.vectors.append(np.array(out, copy=True))
        return out


class Library:
    """what is exchanged with the library of CMA"""

    def __init__(self) -> None:
        self.drawn: tp.List[tp.Any] = []
        self.told: tp.List[tp.Any] = []
        self.made: tp.List[int] = []
        self.faults: tp.List[int] = []  # generations which are refused
        self.count = 0
        self.refused = self.unsure = False

    @contextlib.contextmanager
    def errors(self) -> tp.Iterator[None]:
        try:
            yield
        except (RuntimeError, AssertionError):
            self.refused = self.unsure = True
            raise

    @contextlib.contextmanager
    def watch(self) -> tp.Iterator[None]:
        import cma
        from fcmaes import cmaes

        box = self
        real, fast = cma.CMAEvolutionStrategy, cmaes.Cmaes

        def receive(xs: tp.Any, ys: tp.Any) -> None:
            box.count += 1
            box.told += [(np.array(x, dtype=float), float(y)) for x, y in zip(xs, ys)]
            if box.count in box.faults:
                box.refused = True
                raise RuntimeError("refused")

        class Spy(real):  # type: ignore
            def __init__(self, *args: tp.Any, **kwargs: tp.Any) -> None:
                super().__init__(*args, **kwargs)
                box.made.append(int(self.popsize))

            def ask(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
                out = super().ask(*args, **kwargs)
                box.drawn += [np.array(x, dtype=float) for x in out]
                return out

            def tell(self, solutions: tp.Any, function_values: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
                receive(solutions, function_values)
                with box.errors():
                    return super().tell(solutions, function_values, *args, **kwargs)

        class Fast(fast):  # type: ignore
            def __init__(self, *args: tp.Any, **kwargs: tp.Any) -> None:
                super().__init__(*args, **kwargs)
                box.made.append(int(self.popsize))

            def ask(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
                out = super().ask(*args, **kwargs)
                box.drawn += [np.array(x, dtype=float) for x in out]
                return out

            def tell(self, ys: tp.Any, xs: tp.Any = None, *args: tp.Any, **kwargs: tp.Any) -> tp.Any:
                receive(xs, ys)
                with box.errors():
                    return super().tell(ys, xs, *args, **kwargs)

        cma.CMAEvolutionStrategy, cmaes.Cmaes = Spy, Fast
        try:
            yield
        finally:
            cma.CMAEvolutionStrategy, cmaes.Cmaes = real, fast


class Runner:
    def __init__(self, name: str, dim: int, workers: int, seed: int, library: Library) -> None:
        self.lib = library
        self.param = ng.p.Array(shape=(dim,))
        self.rng = Steps(seed)
        self.param.random_state = self.rng
        self.frng = np.random.RandomState(seed + 54321)
        cfg: tp.Dict[str, tp.Any] = dict(minmu=1, W=workers, R=5, adapt=False, noise="", nf=20, lam=1, mu=1)
        if name.startswith("CMA:"):
            kw = CMAS[name[4:]]
            maker: tp.Any = lib.ParametrizedCMA(**kw)
            pop = max(workers, kw["popsize"] if "popsize" in kw else 4 + int(kw.get("popsize_factor", 3.0) * math.log(dim)))
            if kw.get("elitist"):
                pop = max(pop, workers + 1)
            cfg.update(fam="cma", lam=pop, mu=pop // 2)
        elif name.split(":")[0] in POP:
            base, _, size = name.partition(":")
            maker = lib.ParametrizedTBPSA(naive=False, initial_popsize=int(size)) if size else getattr(lib, base)
            mu = int(size) if size else dim
            cfg.update(fam="pop", lam=max(4 * mu, workers), mu=mu, minmu=min(mu, dim), adapt=base in ["PCEDA", "MPCEDA", "TBPSA"])
        else:
            base, _, factor = name.partition(":")
            maker = lib.ParametrizedOnePlusOne(noise_handling=("random" if base.startswith("Noisy") else "optimistic", 1.0 / int(factor))) if factor else ng.optimizers.registry[base]
            cfg.update(fam="one", noise="bandit" if base == "NoisyBandit" else "random" if base.startswith("Noisy") else "optimistic" if base.startswith("Optimistic") else "",
                       nf=int(factor or 20))
        self.name, self.cfg = name, cfg
        self.opt = maker(self.param, budget=10000, num_workers=workers)
        library.made.clear()
        self.data: tp.List[tp.List[int]] = []
        self.keys: tp.Dict[tp.Any, int] = {}
        self.uids: tp.Dict[str, int] = {self.param.uid: 0}
        self.cands: tp.Dict[int, tp.Any] = {}
        self.all: tp.Dict[str, tp.Any] = {self.param.uid: self.param}
        self.known: tp.Set[int] = set()
        self.asked = 0
        self.ev: tp.List[tp.Any] = []
        if cfg["fam"] == "one":
            self.x(np.zeros(dim))

    def x(self, data: tp.Any) -> int:
        data = np.asarray(data, dtype=float)
        key = tuple(np.round(data, 7) + 0.0)
        if key not in self.keys:
            self.keys[key] = len(self.keys)
            self.data.append([int(round(SCALE * v)) if abs(v) < 10000 else 0 for v in data])
        return self.keys[key] + (0 if self.cfg["fam"] == "one" else 1)

    def u(self, uid: str) -> int:
        return self.uids.setdefault(uid, len(self.uids))

    def restarted(self) -> None:
        self.ev += [dict(k="restart", lam=n) for n in self.lib.made]
        self.lib.made.clear()

    def do(self, h: tp.Dict[str, tp.Any]) -> bool:
        opt, fam = self.opt, self.cfg["fam"]
        e: tp.Dict[str, tp.Any] = dict(k=h["k"])
        self.lib.drawn.clear()
        self.lib.told.clear()
        self.lib.refused = self.lib.unsure = False
        if h["k"] == "ask":
            best = opt.current_bests["optimistic"].parameter.get_standardized_data(reference=self.param) if opt.num_tell and fam == "one" else None
            self.rng.vectors.clear()
            cand = opt.ask()
            self.asked += 1
            self.cands[self.asked] = cand
            self.all[cand.uid] = cand
            data = cand.get_standardized_data(reference=self.param)
            if np.max(np.abs(data)) > 9000 and fam == "pop":
                return False
            e.update(u=self.u(cand.uid), x=self.x(data), parent=self.u(cand.parents_uids[0]) if cand.parents_uids else 0, lib=[self.x(x) for x in self.lib.drawn])
            if fam == "pop":
                e["lineage"] = self.u(cand.heritage["lineage"])
            if fam == "one":
                e.update(same=e["x"] in self.known, opt=self.x(best) if best is not None else 0, logsigma=[])
                parent = self.all.get(cand.parents_uids[0]) if cand.parents_uids else None
                steps = [v for v in self.rng.vectors if v.size == self.param.dimension]
                if parent is not None and steps:
                    step = steps[-1].ravel()
                    move = cand.get_standardized_data(reference=parent)
                    i = int(np.argmax(np.abs(step)))
                    ratio = float(move[i] / step[i])
                    if ratio > 0 and np.allclose(move, ratio * step, rtol=1e-6, atol=1e-9):
                        e["logsigma"] = [int(round(1e6 * math.log(ratio)))]
            self.restarted()
        elif h["k"] == "tell":
            if h["c"]:
                cand = self.cands.pop(h["c"])
            else:
                data = self.frng.randint(-9, 10, size=self.param.dimension).astype(float)
                if fam != "pop":
                    data = data + self.frng.uniform(0, 0.9, size=self.param.dimension)  # never twice the same
                cand = self.param.spawn_child().set_standardized_data(data)
                self.all[cand.uid] = cand
            x = self.x(cand.get_standardized_data(reference=self.param))
            opt.tell(cand, h["loss"])
            self.known.add(x)
            e.update(u=self.u(cand.uid), loss=h["loss"], x=x, refused=self.lib.refused, unsure=self.lib.unsure, lib=[[self.x(d), int(y)] for d, y in self.lib.told],
                     lineage=self.u(cand.heritage["lineage"]))
            self.restarted()
        elif h["k"] == "rec":
            data = opt.provide_recommendation().get_standardized_data(reference=self.param)
            e.update(x=self.x(data), center=[int(round(SCALE * v)) if abs(v) < 10000 else 0 for v in data])
            self.restarted()
        self.ev.append(e)
        return True

    def trace(self, **info: tp.Any) -> tp.Dict[str, tp.Any]:
        # positions start at 1
        return dict(cfg=dict(self.cfg, data=self.data or [[0]]), ev=self.ev, info=dict(info, name=self.name))


def replay(job: tp.Any) -> tp.Any:
    name, dim, workers, hists = job
    out = []
    box = Library()
    with box.watch():
        for i, hist in enumerate(hists):
            r = Runner(name, dim, workers, i, box)
            if any(h["k"] == "tell" and not h["c"] for h in hist) and "EDA" in name:
                continue
            n = 0
            for h in hist:
                h = dict(h)
                if h["k"] == "tell":  # losses are distinct
                    h["loss"] = 100 * h["loss"] + n % 97 if r.cfg["fam"] != "one" else h["loss"]
                    n += 1
                r.do(h)
            if n:
                r.do(dict(k="rec"))
            out.append(r.trace(history=hist))
    return out


def randomized(job: tp.Any) -> tp.Any:
    num, name = job
    rng = random.Random(f"generations{num}{name}")
    box = Library()
    fam = "cma" if name.startswith("CMA") else "pop" if name.split(":")[0] in POP else "one"
    dim = rng.choice([2, 2, 3, 5]) if fam == "cma" else rng.choice([1, 2, 2, 3]) if fam == "pop" else rng.choice([1, 2, 4])
    workers = rng.choice([1, 1, 2, 5])
    foreign = 0.0 if "EDA" in name else rng.choice([0, 0, 0.2])
    with box.watch():
        r = Runner(name, dim, workers, num, box)
        box.faults = [rng.randint(1, 5)] if rng.random() < 0.3 else []
        n = r.cfg["lam"] * 6 + 10 if fam == "cma" else 160 if fam == "pop" else 40
        recent: tp.List[int] = []
        trend = rng.choice([0, 0, 1])
        top = 60
        tells = 0
        while tells < n:
            y = rng.random()
            if (y < 0.5 and len(r.cands) < workers) or (not r.cands and y >= foreign):
                if not r.do(dict(k="ask")):
                    break
            elif y < 0.95:
                if fam == "one" and rng.random() < 0.2 and recent:
                    loss = rng.choice(recent)  # same loss as the best one
                    if loss != min(recent):
                        continue
                    if r.cfg["noise"] == "":
                        continue
                else:
                    low, high = (max(0, 40 - tells // 2), max(20, 60 - tells // 2)) if trend and fam == "pop" else (0, top if fam == "pop" else 2000)
                    loss = rng.choice([v for v in range(low, high + 1) if v not in recent] or [v for v in range(top + 1) if v not in recent])
                c = 0 if rng.random() < foreign or not r.cands else rng.choice(list(r.cands))
                r.do(dict(k="tell", c=c, loss=loss))
                tells += 1
                recent = (recent + [loss])[-40:]
            elif tells:
                r.do(dict(k="rec"))
    return r.trace(job=job)


def run_C17(chk: Check) -> None:
    invs = ["InvOnce", "InvSize", "InvParents", "InvStep"]
    base = dict(Fam="cma", Lam=3, Mu=1, MinMu=1, W=1, R=5, Adapt=False, Losses={0, 1}, MaxOut=2, Foreign=True, EMIT=False)
    variants: tp.List[tp.Tuple[str, tp.Dict[str, tp.Any], int, int]] = [
        ("library", dict(), 8, 7), ("library of 4", dict(Lam=4, Mu=2, MaxOut=1), 9, 8),
        ("population", dict(Fam="pop", Lam=4, MaxOut=1), 9, 8),
        ("adaptation", dict(Fam="pop", Lam=2, Mu=1, MinMu=1, R=3, Adapt=True, MaxOut=1, Foreign=False, W=1), 16, 0),
        ("adaptation, workers", dict(Fam="pop", Lam=3, Mu=1, MinMu=1, R=2, Adapt=True, MaxOut=3, Foreign=False, W=3, Losses={0, 2}), 12, 0),
        ("step", dict(Fam="one", Losses={0, 1, 2}), 7, 6)]
    runs = {"library": [("CMA:small", 2, 2)], "library of 4": [("CMA:speed", 2, 1), ("CMA:short", 3, 1)], "population": [("TBPSA", 1, 1), ("EDA", 1, 1)], "step": [("OnePlusOne", 2, 2), ("CauchyOnePlusOne", 1, 2)]}
    jobs = []
    for name, kw, deep, short in variants:
        consts = dict(base, **kw)
        consts["MaxLen"] = deep + chk.scale(0, 2)
        chk.model("GenerationsMC", split_cfg("Spec", consts, invs=invs), name=name)
        if short:
            consts.update(MaxLen=short + chk.scale(0, 1), EMIT=True)
            hists = chk.behaviours("GenerationsMC", split_cfg("Spec", consts), name=f"histories {name}")
            rng = random.Random(f"{chk.seed}{name}")
            rng.shuffle(hists)
            for run in runs[name]:
                kept = hists[: chk.scale(600, 8000)]
                jobs += [run + (kept[i : i + 50],) for i in range(0, len(kept), 50)]
    traces = collect(chk, pmap(replay, jobs, timeout=300), "histories")
    chk.behaviours_replayed += len(traces)
    chk.judge("GenerationsT", traces, "behaviours of the model on the real optimizers")
    names = [f"CMA:{k}" for k in CMAS] + POP + ["TBPSA:1", "TBPSA:3", "TBPSA"] + ["OnePlusOne", "CauchyOnePlusOne", "NoisyOnePlusOne", "OptimisticNoisyOnePlusOne", "NoisyBandit", "NoisyOnePlusOne:2", "OptimisticNoisyOnePlusOne:7"]
    traces = collect(chk, pmap(randomized, [(chk.seed * 10000 + i, name) for name in names for i in range(chk.scale(12, 150))], timeout=200, chunksize=4), "random histories")
    chk.judge("GenerationsT", traces, "random histories")
    cma = next(t for t in traces if t["cfg"]["fam"] == "cma" and any(e.get("lib") for e in t["ev"] if e["k"] == "tell"))
    pop = next(t for t in traces if t["cfg"]["fam"] == "pop" and any(e["k"] == "rec" and any(e["center"]) for e in t["ev"]))
    one = next(t for t in traces if t["info"]["name"] == "OnePlusOne" and any(e.get("logsigma") for e in t["ev"]))

    def generation(t: tp.Any) -> None:
        next(e for e in t["ev"] if e["k"] == "tell" and e["lib"])["lib"].pop()

    def center(t: tp.Any) -> None:
        next(e for e in t["ev"] if e["k"] == "rec" and any(e["center"]))["center"][0] += 5

    def step(t: tp.Any) -> None:
        next(e for e in t["ev"] if e.get("logsigma"))["logsigma"][0] += 1000

    chk.selftest("GenerationsT", cma, generation, "lost point")
    chk.selftest("GenerationsT", pop, center, "wrong center")
    chk.selftest("GenerationsT", one, step, "wrong step")
