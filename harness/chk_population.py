"""C09: population algorithms (spec/Population.tla)"""
import random
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.optimization import optimizerlib as ol, differentialevolution as de, es

from common import Check, split_cfg
from util import collect, pmap

PARAMS: tp.Dict[str, tp.Callable[[], tp.Any]] = {
    "array": lambda: ng.p.Array(shape=(2,)),
    "bounded": lambda: ng.p.Array(shape=(4,)).set_bounds(-5, 5),
    "instru": lambda: ng.p.Instrumentation(ng.p.Scalar(), x=ng.p.Choice([1, 2, 3]), y=ng.p.Log(lower=0.1, upper=10)),
    "integer": lambda: ng.p.Array(shape=(3,)).set_integer_casting(),
}
VARIANTS: tp.Dict[str, tp.Callable[[int, int], tp.Tuple[str, tp.Any]]] = {
    "de": lambda n, o: ("de", de.DifferentialEvolution(popsize=n)),
    "de_2p": lambda n, o: ("de", de.DifferentialEvolution(popsize=n, crossover="twopoints")),
    "de_lhs": lambda n, o: ("de", de.DifferentialEvolution(popsize=n, initialization="LHS", crossover="rotated_twopoints")),
    "de_qo": lambda n, o: ("de", de.DifferentialEvolution(popsize=n, initialization="QO", crossover="onepoint", propagate_heritage=True)),
    "de_param": lambda n, o: ("de", de.DifferentialEvolution(popsize=n, initialization="parametrization", crossover="parametrization")),
    "de_noisy": lambda n, o: ("de", de.DifferentialEvolution(popsize=n, recommendation="noisy", crossover="dimension")),
    "pso": lambda n, o: ("pso", ol.ConfPSO(transform="arctan", popsize=n)),
    "pso_id": lambda n, o: ("pso", ol.ConfPSO(popsize=n)),
    "pso_gauss": lambda n, o: ("pso", ol.ConfPSO(transform="gaussian", popsize=n)),
    "pso_qo": lambda n, o: ("pso", ol.ConfPSO(transform="arctan", popsize=n, qo=True, sqo=True)),
    "es": lambda n, o: ("es", es.EvolutionStrategy(popsize=n)),
    "es_rec": lambda n, o: ("es", es.EvolutionStrategy(popsize=n, recombination_ratio=1)),
    "es+": lambda n, o: ("es+", es.EvolutionStrategy(popsize=n, offsprings=o)),
    "es+_rec": lambda n, o: ("es+", es.EvolutionStrategy(popsize=n, offsprings=o, recombination_ratio=0.5)),
    "es,": lambda n, o: ("es,", es.EvolutionStrategy(popsize=n, offsprings=o, only_offsprings=True, ranker="simple")),
}


class Run:
    def __init__(self, variant: str, param: str, lam: int, off: int, seed: int) -> None:
        self.alg, factory = VARIANTS[variant](lam, off)
        p = PARAMS[param]()
        p.random_state.seed(seed)
        self.opt = factory(p, budget=None if seed % 3 else 1000, num_workers=1 + seed % 4)
        self.rng = np.random.RandomState(seed)
        self.cands: tp.List[tp.Any] = []
        self.info = dict(variant=variant, param=param, seed=seed)
        self.cfg = dict(alg=self.alg, lam=lam, off=off)

    def fresh(self) -> tp.Any:
        return self.opt.parametrization.sample().value

    def step(self, e: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
        e = dict(e, err="")
        try:
            if e["k"] in ("ask", "sug"):
                if e["k"] == "sug":
                    v = self.fresh()
                    if self.info["param"] == "instru":
                        self.opt.suggest(*v[0], **v[1])
                    else:
                        self.opt.suggest(v)
                c = self.opt.ask()
                ids = {x.uid: i + 1 for i, x in enumerate(self.cands)}
                e["par"] = next((ids.get(u, 0) for u in c.parents_uids[:1]), 0)
                e["gen"] = c.generation - self.cands[e["par"] - 1].generation if e["par"] else 0
                self.cands.append(c)
            elif e["k"] == "tell":
                self.opt.tell(self.cands[e["c"] - 1], float(e["x"]))
            else:
                c = self.opt.parametrization.spawn_child(new_value=self.fresh())
                self.cands.append(c)
                self.opt.tell(c, float(e["x"]))
        except Exception as ex:  # pylint: disable=broad-except
            e["err"] = repr(ex)[:200]
            e.setdefault("par", -1)
            e.setdefault("gen", -1)
        return e

    def run(self, hist: tp.Iterable[tp.Dict[str, tp.Any]]) -> tp.Dict[str, tp.Any]:
        ev = []
        for e in hist:
            ev.append(self.step(e))
            if ev[-1]["err"]:
                break
        return dict(cfg=self.cfg, ev=ev, info=self.info)


def replay(job: tp.Any) -> tp.Any:
    warnings.simplefilter("ignore")
    seed, alg, lam, off, hists = job
    rng = random.Random(f"pop{seed}")
    names = [v for v in VARIANTS if v.split("_")[0] == alg]
    return [Run(rng.choice(names), rng.choice(["array", "array", "bounded", "instru", "integer"]), lam, off, rng.randint(0, 10000)).run(h) for h in hists]


def randomized(job: tp.Any) -> tp.Any:
    warnings.simplefilter("ignore")
    rng = random.Random(f"popr{job}")
    lam = rng.choice([2, 3, 5, 8])
    off = lam + rng.randint(1, 5)
    r = Run(rng.choice(list(VARIANTS)), rng.choice(list(PARAMS)), lam, off, rng.randint(0, 10000))
    style = rng.choice(["sequential", "parallel", "late", "wild"])
    maxloss = rng.choice([3, 20, 1000])
    pending: tp.List[int] = []

    def gen() -> tp.Iterator[tp.Dict[str, tp.Any]]:
        for _ in range(rng.choice([40, 80])):
            x = rng.randint(0, maxloss)
            limit = dict(sequential=1, parallel=4, late=lam + 3, wild=10)[style]
            u = rng.random()
            if style == "wild" and u < 0.08:
                yield dict(k="tna", x=x)
            elif style == "wild" and u < 0.16 and r.cands:
                yield dict(k="tell", c=rng.randint(1, len(r.cands)), x=x)
            elif style == "wild" and u < 0.2:
                yield dict(k="sug")
                pending.append(len(r.cands))
            elif len(pending) < limit and (not pending or rng.random() < 0.55):
                yield dict(k="ask")
                pending.append(len(r.cands))
            else:
                yield dict(k="tell", c=pending.pop(rng.randrange(len(pending)) if rng.random() < 0.5 else 0), x=x)

    return r.run(gen())


CONFIGS = [("de", 2, 0), ("pso", 2, 0), ("es", 2, 0), ("es+", 2, 3), ("es,", 1, 2), ("es+", 2, 1)]


def run_C09(chk: Check) -> None:
    rng = random.Random(chk.seed)
    jobs: tp.List[tp.Any] = []
    for alg, lam, off in CONFIGS:
        invs, props = ["InvSize", "InvQueue", "InvParents", "InvTold"], ["ActSlots", "ActBest"]
        for retell in (False, True):
            chk.model("PopulationMC", split_cfg("Spec", dict(Alg=alg, Lam=lam, Off=off, MaxLen=chk.scale(6, 8) - retell, MaxLoss=2 if retell else 1, Retell=retell, EMIT=False), invs=invs, props=props),
                           name=f"{alg}{lam}{off}{retell}")
        hists = chk.behaviours("PopulationMC", split_cfg("Spec", dict(Alg=alg, Lam=lam, Off=off, MaxLen=chk.scale(6, 7), MaxLoss=1, Retell=True, EMIT=True)), name=f"emit {alg}{lam}{off}")
        rng.shuffle(hists)
        hists = hists[: chk.scale(1200, 20000)]
        jobs += [(chk.seed * 1000 + i, alg, lam, off, hists[i : i + 100]) for i in range(0, len(hists), 100)]
    traces = collect(chk, pmap(replay, jobs), "histories of the model")
    chk.behaviours_replayed += len(traces)
    chk.judge("PopulationT", traces, "histories of the model")
    good = next(t for t in traces if t["ev"][-1]["k"] == "ask" and t["ev"][-1].get("par", 0) > 0)

    def corrupt(t: tp.Any) -> None:
        t["ev"][-1]["par"] = t["ev"][-1]["par"] % 2 + 1

    chk.selftest("PopulationT", good, corrupt, "another parent")
    jobs2 = [chk.seed * 100000 + s for s in range(chk.scale(2000, 25000))]
    traces = collect(chk, pmap(randomized, jobs2, chunksize=10), "random histories")
    chk.judge("PopulationT", traces, "random histories")
