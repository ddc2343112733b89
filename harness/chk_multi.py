"""C07 (Pareto front, hypervolume, subsets: spec/Pareto.tla) and C08 (NSGA-II ranking: spec/Ranking.tla)"""
import random
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.optimization import multiobjective as mobj
from nevergrad.optimization.multiobjective import nsga2

from common import Check, split_cfg
from util import BIG, Tokens, cap, collect, pmap
import zoo

SUBSETS = ["random", "loss-covering", "EPS", "domain-covering", "hypervolume"]
MULTI = ["OnePlusOne", "RandomSearch", "DE", "TwoPointsDE", "CMA", "PSO", "NGOpt", "DiscreteOnePlusOne", "ES", "RecES",
         "RecMutDE", "LhsDE", "ParetoES", "TBPSA", "Portfolio", "LHSSearch"]
AUTO = getattr(mobj, "AUTO_BOUND", 15)


class Multi:
    """Records the multiobjective history of an optimizer"""

    def __init__(self, opt: tp.Any) -> None:
        self.opt = opt
        self.ids = Tokens()
        self.ev: tp.List[tp.Any] = []
        self.kept: tp.Any = None
        self.scale: tp.Dict[int, float] = {}  # increasing function applied to the losses (when volumes are not used)

    def real(self, losses: tp.Any) -> tp.List[float]:
        return [self.scale.get(x, float(x)) for x in losses]

    def losses(self, cand: tp.Any) -> tp.Any:
        if not self.scale or cand._losses is None:
            return _losses(cand)
        inverse = {y: x for x, y in self.scale.items()}
        return [inverse.get(float(x), -99999) for x in cand.losses]

    def reference(self, bounds: tp.Any) -> None:
        self.opt.tell(ng.p.MultiobjectiveReference(), np.array(self.real(bounds), dtype=float))
        self.ev.append(dict(k="ref", v=list(bounds)))

    def tell(self, cand: tp.Any, losses: tp.Any, form: int = 0) -> None:
        real = self.real(losses)
        value: tp.Any = [np.array(real), real, tuple(real) if self.scale else tuple(losses)][form]
        self.opt.tell(cand, value)
        self.ev.append(dict(k="tell", id=self.ids(cand.uid), v=list(losses), loss=cap(cand.loss)))

    def front(self, size: tp.Optional[int] = None, subset: str = "random") -> None:
        if self.kept is not None:  # the front provided before
            self.ev.append(dict(k="kept", was=self.kept[1], now=[self.ids(c.uid) for c in self.kept[0]]))
            if len(self.ev) % 2:
                self.kept[0].clear()  # it belongs to the caller
        out = self.opt.pareto_front()
        self.kept = (out, [self.ids(c.uid) for c in out])
        e: tp.Dict[str, tp.Any] = dict(k="front", front=[dict(id=self.ids(c.uid), v=self.losses(c)) for c in out])
        if size is not None:
            sub = self.opt.pareto_front(size=size, subset=subset, subset_tentatives=3)
            e.update(size=size, subset=[self.ids(c.uid) for c in sub])
        self.ev.append(e)

    def trace(self, auto: int, info: tp.Any) -> tp.Any:
        return dict(cfg=dict(auto=auto, nohv=bool(getattr(self.opt, "_no_hypervolume", False))), ev=self.ev, info=info)


def _losses(c: tp.Any) -> tp.Any:
    try:
        return [cap(x) for x in c.losses]
    except Exception:  # pylint: disable=broad-except
        return []  # without multiobjective losses


class Direct:
    """The Pareto bookkeeping without optimizer"""

    def __init__(self, auto: int, ub: tp.Any) -> None:
        self.hv = mobj.HypervolumePareto(upper_bounds=ub, auto_bound=auto, seed=3)
        self.num = 0

    def tell(self, cand: tp.Any, losses: tp.Any) -> None:
        cand._losses = losses
        cand.loss = self.hv.add(cand)

    def pareto_front(self, size: tp.Any = None, subset: str = "random", subset_tentatives: int = 12) -> tp.Any:
        return self.hv.pareto_front(size, subset, subset_tentatives)


def replay(job: tp.Any) -> tp.Any:
    name, ub, auto, hists = job
    out = []
    for h in hists:
        param = ng.p.Array(shape=(2,))
        param.random_state.seed(5)
        if name == "direct":
            opt: tp.Any = Direct(auto, None if not ub else np.array([float(ub)] * len(h[0])))
        else:
            opt = zoo.make(name, param, budget=40, num_workers=8)
        m = Multi(opt)
        if ub:
            if name == "direct":
                m.ev.append(dict(k="ref", v=[ub] * len(h[0])))
            else:
                m.reference([ub] * len(h[0]))
        for v in h:
            m.tell(param.sample() if name == "direct" else opt.ask(), v)
        m.front()
        m.front(2, SUBSETS[len(out) % 4])
        out.append(m.trace(auto if not ub else 0, dict(optimizer=name, history=h)))
    return out


def random_multi(job: tp.Any) -> tp.Any:
    name, pname, seed = job
    rng = random.Random(f"multi{job}")
    np.random.seed(rng.randrange(2**31))
    param = zoo.param(pname)
    param.random_state.seed(rng.randrange(2**31))
    opt = zoo.make(name, param, budget=60, num_workers=rng.choice([1, 3]))
    d = rng.choice([2, 2, 3])
    mx = 6 if d == 2 else 4
    lo = rng.choice([0, -3])
    m = Multi(opt)
    if getattr(opt, "_no_hypervolume", False) and rng.random() < 0.6:
        step = rng.choice([3, 10, 40])
        m.scale = {v: rng.choice([1.0, 3.0]) * 10.0 ** (step * v) for v in range(lo, lo + mx + 1)}
    auto = AUTO
    if rng.random() < 0.6:
        auto = 0
        m.reference([rng.randint(lo + 1, lo + mx) for _ in range(d)])
    elif rng.random() < 0.2:
        m.front()
    waiting: tp.List[tp.Any] = []
    told: tp.List[tp.Any] = []
    for _ in range(rng.choice([20, 40])):
        if len(waiting) < opt.num_workers and (not waiting or rng.random() < 0.5):
            waiting.append(opt.ask())
            continue
        u = rng.random()
        cand = waiting.pop(rng.randrange(len(waiting))) if u < 0.9 else param.sample()
        if u > 0.9 and name in ("ES", "RecES", "RecMutDE", "ParetoES") and rng.random() < 0.5:
            continue
        if told and rng.random() < 0.2:
            losses = rng.choice(told)
        else:
            losses = [rng.randint(lo, lo + mx) for _ in range(d)]
        told.append(losses)
        m.tell(cand, losses, rng.randrange(3))
        if rng.random() < 0.3:
            subs = SUBSETS if auto == 0 else SUBSETS[:4]
            subset = rng.choice(subs)
            if subset == "hypervolume" and not any(e["k"] == "tell" and all(
                    a <= b for a, b in zip(e["v"], m.ev[0]["v"])) for e in m.ev):
                subset = "EPS"
            if subset == "hypervolume" and getattr(opt, "_no_hypervolume", False):
                subset = "random"
            m.front(rng.choice([None, 1, 2, 3]), subset)
    m.front()
    return m.trace(auto, dict(optimizer=name, param=pname, seed=seed))


def run_C07(chk: Check) -> None:
    invs = ["InvFront", "InvCover", "InvVolume", "InvFrontVolume"]
    configs = [(3, 2, 3, 2, 0), (3, 2, 3, 0, 2), (2, 3, 2, 2, 0), (4, 2, 2, 2, 0)]
    if not chk.quick:
        configs += [(4, 2, 3, 2, 0), (4, 2, 3, 0, 2), (3, 3, 2, 2, 0), (3, 3, 2, 0, 2), (5, 2, 2, 2, 0)]
    rng = random.Random(chk.seed)
    jobs = []
    for n, d, mx, ub, auto in configs:
        consts = dict(N=n, D=d, MaxV=mx, UB=ub, AUTO=auto, EMIT=True)
        hists = chk.behaviours("ParetoMC", split_cfg("Spec", consts, invs=invs, props=["VolumeGrows"]),
                               name=f"n{n}d{d}v{mx}u{ub}a{auto}", workers=8)
        rng.shuffle(hists)
        names = ["direct"] if auto else ["direct", "OnePlusOne", "DE", "RandomSearch"]
        for name in names:
            sub = hists[: chk.scale(4000, 70000) if name == "direct" else chk.scale(500, 4000)]
            size = max(1, len(sub) // 8)
            jobs += [(name, ub, auto, sub[i : i + size]) for i in range(0, len(sub), size)]
    traces = collect(chk, pmap(replay, jobs, timeout=400), "multiobjective model histories")
    chk.behaviours_replayed += len(traces)
    chk.judge("ParetoT", traces, "multiobjective model histories")
    names = [n for n in MULTI if n in ng.optimizers.registry]
    jobs2 = [(n, rng.choice(zoo.PARAMS), chk.seed * 1000 + s) for n in names for s in range(chk.scale(16, 250))]
    traces = collect(chk, pmap(random_multi, jobs2, timeout=60), "random multiobjective histories")
    chk.judge("ParetoT", traces, "random multiobjective histories")

    def counts(t: tp.Any) -> bool:
        f = t["ev"][-1]["front"]
        return t["ev"][0]["k"] == "ref" and len(f) > 1 and all(a < b for a, b in zip(f[0]["v"], t["ev"][0]["v"])) and all(
            x["v"] != f[0]["v"] for x in f[1:])

    good = next(t for t in traces if counts(t))

    def corrupt(t: tp.Any) -> None:
        t["ev"][-1]["front"] = t["ev"][-1]["front"][1:]

    chk.selftest("ParetoT", good, corrupt, "a point of the front is missing")


# ------------------------------------------------------------------ ranking
def _rank_event(pop: tp.Any, k: int, seed: int = 0) -> tp.Any:
    param = ng.p.Scalar()
    cands = []
    for v in pop:
        c = param.spawn_child()
        if len(v) == 1:
            c.loss = float(v[0])
        else:
            c._losses = np.array(v, dtype=float)
        cands.append(c)
    index = {c.uid: i + 1 for i, c in enumerate(cands)}
    order = list(cands)
    random.Random(seed).shuffle(order)
    out = nsga2.rank(order, k if k else None)
    sel = [dict(i=index[u], rank=int(r), front=int(f), crowd=cap(c, 1000)) for u, (r, f, c) in out.items()]
    return dict(pop=[list(v) for v in pop], k=k, sel=sel)


def rank_replay(job: tp.Any) -> tp.Any:
    pops, seed = job
    ev = []
    for i, pop in enumerate(pops):
        ks = range(len(pop) + 1) if len(pop) <= 4 else [0, 1, len(pop) // 2, len(pop) - 1]
        ev += [_rank_event(pop, k, seed + i) for k in ks]
    return dict(cfg={}, ev=ev, info=dict(seed=seed))


def run_C08(chk: Check) -> None:
    rng = random.Random(chk.seed)
    pops: tp.List[tp.Any] = []
    for n, d, mx in ([(4, 2, 2), (5, 1, 2), (3, 3, 1)] if chk.quick else [(4, 2, 3), (5, 2, 2), (6, 1, 2), (4, 3, 1)]):
        consts = dict(N=n, D=d, MaxV=mx, EMIT=True)
        out = chk.behaviours("RankingMC", split_cfg("Spec", consts, invs=["InvPartition", "InvDepth", "InvChain"]),
                             name=f"n{n}d{d}v{mx}", workers=8)
        rng.shuffle(out)
        pops += out[: chk.scale(6000, 40000)]
    chk.behaviours_replayed += len(pops)
    for _ in range(chk.scale(600, 8000)):
        n = rng.randint(4, 14)
        d = rng.choice([2, 2, 3, 4])
        if rng.random() < 0.6:  # without ties
            cols = [rng.sample(range(0, 3 * n), n) for _ in range(d)]
            if d == 2 and rng.random() < 0.5:  # one large front
                cols = [sorted(cols[0]), sorted(cols[1], reverse=True)]
            pop = [list(x) for x in zip(*cols)]
        else:
            pop = [[rng.randint(0, 4) for _ in range(d)] for _ in range(n)]
        pops.append(pop)
    size = 40
    jobs = [(pops[i : i + size], chk.seed * 100000 + i) for i in range(0, len(pops), size)]
    traces = collect(chk, pmap(rank_replay, jobs, timeout=100), "rankings")
    chk.judge("RankingT", traces, "rankings of populations")
    good = next(t for t in traces if any(len(e["sel"]) >= 3 for e in t["ev"]))

    def corrupt(t: tp.Any) -> None:
        e = next(e for e in t["ev"] if len(e["sel"]) >= 3)
        e["sel"] = e["sel"][1:]

    chk.selftest("RankingT", good, corrupt, "a selected individual is missing")
