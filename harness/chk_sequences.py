"""C22: one shot sampling (spec/OneShot.tla)"""
import random
import typing as tp

import numpy as np
from scipy import stats
import nevergrad as ng
from nevergrad.optimization import sequences

from common import Check, split_cfg
from util import Tokens, collect, pmap

KINDS = ["Halton", "Hammersley", "LHS", "Random"]


def primes(n: int) -> tp.List[int]:
    out: tp.List[int] = []
    k = 2
    while len(out) < n:
        if all(k % q for q in out if q * q <= k):
            out.append(k)
        k += 1
    return out


def length(n: int, b: int) -> int:
    out = 0
    while n:
        n //= b
        out += 1
    return out


class Recorder:
    """Exact version of the points of the unit cube"""

    def __init__(self, kind: str, dim: int, n: int, seq_n: int, scrambled: bool, middle: bool = False, opposition: str = "none", rescaled: bool = False) -> None:
        bases = primes(dim if kind == "Halton" else dim - 1) if kind in ["Halton", "Hammersley"] else []
        self.cfg = dict(kind=kind, dim=dim, n=n, middle=middle, opposition=opposition, scrambled=scrambled, bases=bases, rescaled=rescaled)
        self.seq_n = seq_n
        self.ev: tp.List[tp.Any] = []
        self.idx = 0
        self.tok = Tokens()

    def point(self, x: tp.Any, tol: float = 1e-9) -> None:
        x = np.asarray(x, dtype=float)
        kind = self.cfg["kind"]
        e: tp.Dict[str, tp.Any] = dict(k="point", inside=bool((x >= -tol).all() and (x <= 1 + tol).all() and x.size == self.cfg["dim"]), exact=True, num=[], tok=self.tok(np.round(x, 8)))
        if e["inside"] and not self.cfg["rescaled"]:
            seq_n = max(1, self.seq_n)  # a point is not expected if the sequence is empty
            denoms = [seq_n] * x.size
            if kind == "Halton":
                denoms = [b ** length(self.idx + 1, b) for b in self.cfg["bases"]]
            elif kind == "Hammersley":
                denoms = [2 * seq_n] + [b ** length(self.idx + 1, b) for b in self.cfg["bases"]]
            if kind == "LHS":
                e["num"] = [int(np.floor(v * m)) for v, m in zip(x, denoms)]
            elif kind != "Random":
                e["num"] = [int(np.round(v * m)) for v, m in zip(x, denoms)]
                e["exact"] = all(abs(v - c / m) < max(tol, 1e-9) for v, c, m in zip(x, e["num"], denoms))
        self.ev.append(e)
        self.idx += 1

    def trace(self, **info: tp.Any) -> tp.Any:
        return dict(cfg=self.cfg, ev=self.ev, info=info)


def samplers(job: tp.Any) -> tp.Any:
    """the sequences themselves"""
    seed, kind, dim, n, scrambled, ops = job
    sampler = sequences.samplers[kind + "Sampler"](dim, n if n else None, scrambling=scrambled, random_state=np.random.RandomState(seed))
    r = Recorder(kind, dim, n, n, scrambled)
    for op in ops:
        if op == "reinit":
            sampler.reinitialize()
            r.idx = 0
            r.ev.append(dict(k="reinit"))
            continue
        try:
            x = sampler()
        except AssertionError:
            r.ev.append(dict(k="over"))
        else:
            r.point(x)
    return r.trace(job=[seed, kind, dim, n, scrambled])


def searches(job: tp.Any) -> tp.Any:
    """through the optimizers: values in the bounded domain, or cumulative density of the values"""
    seed, cfg, extra = job
    rng = random.Random(f"search{seed}")
    kind, n, middle, opposition = cfg["kind"], cfg["n"], cfg["middle"], cfg["opposition"]
    dim = rng.choice([1, 2, 3, 5, 8])
    scrambled = rng.random() < 0.5 and kind in ["Halton", "Hammersley"]
    rescaled = extra == "rescaled"
    bounded = rescaled or (opposition == "none" and rng.random() < 0.6)
    cauchy = rng.random() < 0.3
    scale = rng.choice([1.0, 1.0, 3.0])
    if bounded:
        low = np.array([rng.choice([-3.0, 0.0, 1.5]) for _ in range(dim)])
        width = np.array([rng.choice([1.0, 4.0, 10.0]) for _ in range(dim)])
        if dim > 1 and rng.random() < 0.5:  # several parameters
            param: tp.Any = ng.p.Tuple(ng.p.Scalar(lower=low[0], upper=low[0] + width[0]), ng.p.Array(init=low[1:] + 0.5 * width[1:], lower=low[1:], upper=low[1:] + width[1:]))
        else:
            param = ng.p.Array(init=low + 0.5 * width, lower=low, upper=low + width)
    else:
        param = ng.p.Array(shape=(dim,))
        if rng.random() < 0.3:
            param.set_mutation(sigma=2.0)
    param.random_state.seed(seed)
    make = ng.families.SamplingSearch(sampler=kind, scrambled=scrambled, middle_point=middle, opposition_mode=None if opposition == "none" else opposition,
                                      cauchy=cauchy, scale=scale, rescaled=rescaled)
    opt = make(param, budget=n if n else None, num_workers=rng.choice([1, 4]))
    seq_n = (n - middle if opposition == "none" else (n - middle + 1) // 2) if n else 0
    r = Recorder(kind, dim, n, seq_n, scrambled, middle, opposition, rescaled)
    dist = stats.cauchy() if cauchy else stats.norm()
    points, previous, asks = [], None, len(cfg["kinds"])
    for t in range(asks):
        try:
            cand = opt.ask()
        except AssertionError:
            r.ev.append(dict(k="over"))
            continue
        if rng.random() < 0.7:  # what is told has no influence
            opt.tell(cand, rng.choice([0.0, 1.0, float("nan")]))
        data = cand.get_standardized_data(reference=param)
        if middle and t == 0:
            r.ev.append(dict(k="middle", zero=bool(np.allclose(data, 0))))
            continue
        if opposition != "none" and previous is not None:
            ratio = float(data @ previous) / float(previous @ previous) if previous.any() else -1.0
            line = bool(np.allclose(data, ratio * previous, rtol=1e-9, atol=1e-9 * np.max(np.abs(previous))))
            r.ev.append(dict(k="opposite", ratio=int(np.round(ratio * 1e6)), line=line))
            previous = None
            continue
        previous = data if opposition != "none" else None
        if bounded:
            value = np.concatenate([np.ravel(v) for v in (cand.value if isinstance(param, ng.p.Tuple) else [cand.value])])
            x = (value - low) / width
        else:
            x = dist.cdf(data / scale)
        points.append(x)
        r.point(x, tol=1e-9)
    if rescaled and points:
        x = np.array(points)[:, dim - len(r.cfg["bases"]) :]
        order = [[int(i) for i in np.argsort(col, kind="stable")] for col in x.T] if not scrambled else [[0]] * x.shape[1]
        complete = len(points) == seq_n
        r.ev.append(dict(k="final", order=order, low=not complete or bool((np.min(points, axis=0) < 1e-6).all()), high=not complete or bool((np.max(points, axis=0) > 1 - 1e-6).all())))
    return r.trace(seed=seed, cfg=cfg)


def run_C22(chk: Check) -> None:
    base = dict(MaxOps=0, Budgets={0}, EMIT=False)
    for b1, b2, k1, k2, n in [(2, 1, 3, 1, 20), (3, 1, 2, 1, 22), (5, 1, 1, 1, 12), (2, 3, 2, 1, 26), (3, 5, 1, 1, 32)] + chk.scale([], [(2, 1, 5, 1, 70), (7, 1, 1, 1, 20), (2, 3, 2, 2, 80), (5, 2, 1, 2, 45), (3, 1, 3, 1, 60)]):
        consts = dict(base, B1=b1, B2=b2, K1=k1, K2=k2, MaxN=n)
        chk.model("OneShotMC", split_cfg("Spec", consts, invs=["InvStrata", "InvShown"]), name=f"strata {b1}^{k1} {b2}^{k2}")
    consts = dict(base, B1=2, B2=1, K1=1, K2=1, MaxN=0, Budgets={0, 1, 2, 3, 4, 5, 8}, MaxOps=10)
    chk.model("OneShotMC", split_cfg("OSpec", consts, invs=["InvBudget", "InvShare", "InvUsed"]), name="searches")
    plans = chk.behaviours("OneShotMC", split_cfg("OSpec", dict(consts, Budgets={0, 1, 2, 3, 4, 5, 7, 8, 12, 25}, MaxOps=25, EMIT=True)), name="plans of the searches")
    for p in plans:
        p["cfg"]["kinds"] = p["kinds"]
    jobs = [(chk.seed * 10000 + 10 * i + j, p["cfg"], "") for i, p in enumerate(plans) for j in range(chk.scale(2, 12))]
    jobs += [(chk.seed * 20000 + i, dict(kind=k, n=n, middle=False, opposition="none", kinds=[0] * n), "rescaled") for i, (k, n) in enumerate((k, n) for k in ["Halton", "Hammersley"] for n in [6, 20, 60])]
    traces = collect(chk, pmap(searches, jobs, timeout=120, chunksize=4), "searches")
    chk.behaviours_replayed += len(traces)
    chk.judge("OneShotT", traces, "searches")
    rng = random.Random(chk.seed)
    jobs2: tp.List[tp.Any] = []
    for i in range(chk.scale(160, 1500)):
        kind = KINDS[i % 4]
        dim = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 14, 30, 60])
        n = rng.choice([1, 2, 3, 10, 50, 150]) if kind != "Halton" or rng.random() < 0.5 else 0
        m = min(200, n + 2 if n else 120)
        if dim > 14:
            m = min(m, 60)
        ops = ["call"] * m
        for _ in range(rng.choice([0, 1, 1, 2]) if kind != "Random" else 0):
            ops.insert(rng.randint(0, len(ops)), "reinit")
        jobs2.append((rng.randrange(10**6), kind, dim, n, kind in ["Halton", "Hammersley"] and rng.random() < 0.6, ops))
    jobs2.append((1, "Halton", chk.scale(200, 400), 0, True, ["call"] * 6))
    jobs2.append((1, "Hammersley", chk.scale(120, 300), 10, False, ["call"] * 6))
    traces = collect(chk, pmap(samplers, jobs2, timeout=120, chunksize=2), "sequences")
    chk.judge("OneShotT", traces, "sequences")
    clean = next(t for t in traces if t["cfg"]["kind"] == "Halton" and len(t["ev"]) > 20 and t["cfg"]["dim"] > 1 and not any(e["k"] == "reinit" for e in t["ev"]))
    lhs = next(t for t in traces if t["cfg"]["kind"] == "LHS" and t["cfg"]["n"] >= 10 and len([e for e in t["ev"] if e["k"] == "point"]) > 4)

    def digit(t: tp.Any) -> None:
        t["ev"][15]["num"][0] = (t["ev"][15]["num"][0] + 1) % 16

    def stratum(t: tp.Any) -> None:
        pts = [e for e in t["ev"] if e["k"] == "point"]
        pts[1]["num"][0] = pts[0]["num"][0]

    chk.selftest("OneShotT", clean, digit, "wrong coordinate")
    chk.selftest("OneShotT", lhs, stratum, "stratum used twice")
