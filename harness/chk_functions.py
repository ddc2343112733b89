"""C21: experiment functions (spec/Experiments.tla)"""
import copy
import itertools
import pickle
import random
import typing as tp

import numpy as np
import nevergrad as ng
from nevergrad.functions import ArtificialFunction, ExperimentFunction, FarOptimumFunction, base, corefuncs, helpers
from nevergrad.functions.base import MultiExperiment

from common import Check, split_cfg
from util import collect, pmap

CORES = ["sphere", "sphere1", "sphere2", "sphere4", "DelayedSphere", "rastrigin", "cigar", "discus", "altcigar", "ellipsoid", "altellipsoid", "doublelinearslope", "slope", "rosenbrock", "schwefel_1_2"]
DISCRETE = [f"{n}{a}" for n in ["onemax", "leadingones", "jump"] for a in [2, 3, 5]]


def trace(ev: tp.List[tp.Dict[str, tp.Any]], cfg: tp.Any = None, **info: tp.Any) -> tp.Dict[str, tp.Any]:
    return dict(cfg=cfg or dict(k="misc"), ev=ev, info=info)


def number(v: tp.Any, scale: float = 1.0) -> tp.Tuple[int, bool]:
    v = float(v) * scale
    if not np.isfinite(v) or abs(v) > 2e9:
        return 2000000000, False
    return int(round(v)), bool(abs(v - round(v)) < 1e-6 * max(1.0, abs(v) * 1e-3))


def cores(job: tp.Any) -> tp.Any:
    name, d, seed, count = job
    rng = random.Random(f"core{job}")
    ev = []
    for _ in range(count):
        if name in DISCRETE:
            arity = int(name[-1])
            func: tp.Any = corefuncs.DiscreteFunction(name[:-1], arity)
            x = [i % arity if rng.random() < 0.8 else rng.randrange(arity) for i in range(d)]
            given = np.array(x) if rng.random() < 0.5 else np.array([v + rng.uniform(-0.4, 0.4) for v in x])  # rounded
        else:
            func = corefuncs.registry[name]
            x = [rng.randint(-3, 3) for _ in range(d)]
            given = np.array(x, dtype=float)
        before = given.copy()
        val, whole = number(func(given))
        assert np.array_equal(before, given)
        ev.append(dict(k="core", fun=name, x=x, val=val, whole=whole))
    return trace(ev, job=job)


def seeded(func: tp.Any, seed: int) -> tp.Any:
    func.parametrization.random_state.seed(seed)
    return func


def artificial(job: tp.Any) -> tp.Any:
    """history of calls, evaluations and copies of an artificial function without translation"""
    num, length = job
    rng = random.Random(f"art{job}")
    fun = rng.choice(CORES)
    bd, nb, useless = rng.randint(1, 3), rng.randint(1, 3), rng.choice([0, 0, 1, 2])
    if fun in ["rosenbrock"]:
        bd = max(2, bd)
    while bd * nb + useless > 6:
        nb, useless = max(1, nb - 1), max(0, useless - 1)
    dim = bd * nb + useless
    rot = fun in ["sphere", "DelayedSphere"] and rng.random() < 0.4
    noise, dis = rng.choice([0, 0, 0, 1, 10]), rng.random() < 0.5
    dis = dis and not rot
    split = not useless and rng.random() < 0.3
    agg = rng.choice(["max", "mean", "sum"])
    kw: tp.Dict[str, tp.Any] = dict(block_dimension=bd, num_blocks=nb, useless_variables=useless, noise_level=noise, noise_dissymmetry=dis, rotation=rot,
                                    translation_factor=rng.choice([0, 0.0]), aggregator=agg, split=split, bounded=rng.random() < 0.3)
    np.random.seed(num)
    func = ArtificialFunction(fun, **kw)
    cfg = dict(k="fn", fun=fun, bd=bd, nb=nb, dim=dim, agg=agg, noise=noise > 0, dis=dis)
    scale = nb if agg == "mean" else 1
    objs: tp.List[tp.Any] = [func]
    ev: tp.List[tp.Any] = []
    info = []
    for _ in range(length):
        o = rng.randrange(len(objs))
        f = objs[o]
        op = rng.choice(["call"] * 6 + ["eval"] * 4 + ["time", "copy", "pickle", "deepcopy", "seed"])
        if op in ["copy", "pickle", "deepcopy"]:
            if len(objs) > 2:
                continue
            objs.append(f.copy() if op == "copy" else pickle.loads(pickle.dumps(f)) if op == "pickle" else copy.deepcopy(f))
            ev.append(dict(op=op, o=o + 1))
            g = objs[-1]
            info.append(dict(k="info", want=[f.dimension, sorted((k, repr(v)) for k, v in f.descriptors.items()), bool(f.equivalent_to(g))],
                             got=[g.dimension, sorted((k, repr(v)) for k, v in g.descriptors.items()), True]))
            continue
        if op == "seed":
            if rng.random() < 0.5:
                np.random.seed(rng.randrange(1000))
            else:
                f.parametrization.random_state.seed(rng.randrange(1000))
            ev.append(dict(op=op, o=o + 1))
            continue
        x = [rng.randint(-3, 3) for _ in range(dim)]
        arr = np.array(x, dtype=float)
        args = [arr[i * bd: (i + 1) * bd] for i in range(nb)] if split else [arr]
        if op == "call":
            val, whole = number(f(*args), scale)
        elif op == "eval":
            p = f.parametrization
            cand = p.spawn_child(new_value=((tuple(args), {}) if split else arr))
            val, whole = number(f.evaluation_function(cand), scale)
        else:
            if rot:
                continue
            val, whole = number(f.compute_pseudotime((tuple(args), {}), 1.0), 1e6)
            if fun == "DelayedSphere":
                whole = True
        assert np.array_equal(arr, x)
        ev.append(dict(op=op, o=o + 1, x=x, val=val, whole=whole))
    f = objs[0]
    info.append(dict(k="info", want=[dim, dim, not noise, bd * nb, fun, "ArtificialFunction", f.parametrization.name],
                     got=[f.dimension, f.parametrization.dimension, f.parametrization.function.deterministic, f.descriptors["useful_dimensions"],
                          f.descriptors["name"], f.descriptors["function_class"], "split" if split else ""]))
    for e in info:
        e["want"], e["got"] = repr(e["want"]), repr(e["got"])
    return [trace(ev, cfg, job=job, kw=kw), trace(info, job=job, kw=kw)]


def probe(f: tp.Any, dim: int, scale: float) -> tp.List[int]:
    """twice the translation (x10000) of a sphere"""
    z = np.zeros(dim)
    v0 = f(z) * scale
    return [int(round(1e4 * (v0 + 1 - f(row) * scale))) for row in np.eye(dim)]


def translated(job: tp.Any) -> tp.Any:
    rng = random.Random(f"quad{job}")
    fun = rng.choice(["sphere", "DelayedSphere"])
    bd, nb, useless = rng.randint(1, 4), rng.randint(1, 3), rng.choice([0, 0, 1, 3])
    dim = bd * nb + useless
    agg = rng.choice(["max"] if nb == 1 and rng.random() < 0.5 else ["mean", "sum"])
    factor = rng.choice([0.5, 1, 1.0, 2])
    rot = rng.random() < 0.5
    kw: tp.Dict[str, tp.Any] = dict(block_dimension=bd, num_blocks=nb, useless_variables=useless, rotation=rot, aggregator=agg, translation_factor=factor)
    scale = nb if agg == "mean" else 1
    np.random.seed(job)
    f = seeded(ArtificialFunction(fun, **kw), job)

    def u(x: tp.Any) -> int:
        return int(round(1e4 * f(np.array(x, dtype=float)) * scale))

    def ev(x: tp.Any) -> int:
        p = f.parametrization
        return int(round(1e4 * f.evaluation_function(p.spawn_child(new_value=np.array(x, dtype=float))) * scale))

    q = [[rng.randint(-2, 2) for _ in range(dim)] for _ in range(6)]
    eye = np.eye(dim)
    e = dict(k="quad", n=bd * nb, base=u([0] * dim), one=[u(r) for r in eye], two=[u(2 * r) for r in eye], q=q, v=[u(x) for x in q], ev=[ev(x) for x in q])
    t1 = probe(f, dim, scale)
    out = [e]
    if not useless:
        g = seeded(ArtificialFunction(fun, **dict(kw, translation_factor=3 * factor)), job)
        out.append(dict(k="scale", f=3, t1=t1, t2=probe(g, dim, scale)))
    out.append(dict(k="differ", t1=t1, t2=probe(f.copy(), dim, scale)))
    out.append(dict(k="differ", t1=t1, t2=probe(ArtificialFunction(fun, **kw), dim, scale)))
    out.append(dict(k="same", a=t1, b=probe(pickle.loads(pickle.dumps(f)), dim, scale)))
    out.append(dict(k="same", a=t1, b=probe(seeded(ArtificialFunction(fun, **kw), job), dim, scale)))
    noisy = seeded(ArtificialFunction(fun, **dict(kw, noise_level=1)), job)  # the same function, with noise
    cands = [noisy.parametrization.spawn_child(new_value=np.array(x, dtype=float)) for x in q]
    out.append(dict(k="same", a=e["ev"], b=[int(round(1e4 * noisy.evaluation_function(c) * scale)) for c in cands]))
    hashed = ArtificialFunction(fun, bd, num_blocks=nb, hashing=True)
    vals = [[round(hashed(np.array([s] * hashed.dimension)), 9) for s in [1.0, 2.0, 1.0, 3.5, 2.0]] for _ in range(2)]
    out.append(dict(k="same", a=repr(vals[0]), b=repr(vals[1])))
    out.append(dict(k="same", a=repr(vals[0][0]), b=repr(vals[0][2])))
    out.append(dict(k="differ", t1=repr(vals[0][0]), t2=repr(vals[0][1])))
    return trace(out, job=job, kw=kw)


class Toy(ExperimentFunction):
    def __init__(self, number: int, text: str = "default", flag: bool = False, values: tp.Tuple[int, ...] = (1, 2), other: tp.Any = None, param: tp.Optional[ng.p.Parameter] = None) -> None:
        self.number = number
        super().__init__(self.compute, ng.p.Array(shape=(number,)).set_name("first") if param is None else param)

    def compute(self, x: tp.Any) -> float:
        return float(np.sum(x))


def above(x: tp.Any) -> bool:
    return bool(x[0] > -100)


def instances(job: tp.Any) -> tp.Any:
    hist, num = job
    rng = random.Random(f"inst{job}")
    flags = rng.sample(["has_constraints", "enforce_determinism", "real_world", "hptuning", "neural"], 2)
    keys = ["alpha", "beta"]
    text = rng.choice(["default", "some text"])
    kw: tp.Dict[str, tp.Any] = dict(flag=rng.random() < 0.5, other=rng.choice([None, [1, 2]]))
    if text != "default" or rng.random() < 0.5:
        kw["text"] = text
    if rng.random() < 0.4:
        kw["param"] = ng.p.Array(shape=(3,)).set_name("first")
    objs: tp.List[tp.Any] = [Toy(3, **kw) if rng.random() < 0.5 else Toy(number=3, **kw)]
    bounds = [None, np.array([1.0, 2.0]), np.array([3.0, 4.0])]
    ev = []
    for e in hist:
        o = objs[e["o"] - 1]
        op, v, w, err = e["op"], e["v"], e["w"], False
        if op == "copy":
            try:
                objs.append(o.copy())
            except ng.errors.ExperimentFunctionCopyError:
                err = True
        elif op == "describe":
            o.add_descriptors(**{keys[v - 1]: w})
        elif op == "override":
            o.add_descriptors(text="overridden" if v else text)
        elif op == "flag":
            setattr(o.parametrization, flags[v - 1], not getattr(o.parametrization, flags[v - 1]))
        elif op == "replace":
            o.parametrization = (ng.p.Array(shape=(2,)) if v == 1 else ng.p.Tuple(ng.p.Scalar(), ng.p.Array(shape=(3,)))).set_name(["second", "third"][v - 1])
        elif op == "constrain":
            o.parametrization.register_cheap_constraint(above)
        else:
            o.multiobjective_upper_bounds = bounds[v]
        obs = []
        for x in objs:
            d = x.descriptors
            ub = x.multiobjective_upper_bounds
            assert d["function_class"] == "Toy" and d["number"] == 3 and d["flag"] == kw["flag"] and d["values"] == (1, 2) and "other" not in d and "param" not in d
            assert d["dimension"] == x.dimension and d["parametrization"] == x.parametrization.name and x.number == 3
            obs.append(dict(added=[d.get(k, 0) for k in keys], text=0 if d["text"] == text else 1 if d["text"] == "overridden" else 2,
                            dim=x.parametrization.dimension, name=x.parametrization.name, frozen=bool(x.parametrization._frozen),
                            flags=[i + 1 for i, k in enumerate(flags) if getattr(x.parametrization, k)], nc=len(x.parametrization._constraint_checkers),
                            ub=0 if ub is None else 1 if ub[0] == 1 else 2))
        ids = [id(x.parametrization) for x in objs]
        states = [id(x.parametrization.random_state) for x in objs]
        ev.append(dict(e, err=err, obs=obs, eq=[[bool(x.equivalent_to(y)) for y in objs] for x in objs],
                       distinct=len(set(ids)) == len(ids) and len(set(states)) == len(states)))
    return trace(ev, dict(k="obj"), job=job, kw=repr(kw), flags=flags)


def symmetries(job: tp.Any) -> tp.Any:
    rng = random.Random(f"sym{job}")
    d = rng.randint(1, 4)
    kind = rng.choice(["none", "same", "each"])
    param = ng.p.Array(shape=(d,)).set_name("")
    mid = [0] * d
    if kind == "same":
        lo, up = rng.choice([(-5, 5), (0, 10), (-20, 2), (3, 9)])
        param = ng.p.Array(init=np.full(d, (lo + up) / 2), lower=lo, upper=up).set_name("")
        mid = [lo + up] * d
    elif kind == "each":
        los, ups = [rng.choice([-5, 0, 2]) for _ in range(d)], [rng.choice([5, 8, 11]) for _ in range(d)]
        param = ng.p.Array(init=np.array([(a + b) / 2 for a, b in zip(los, ups)]), lower=los, upper=ups).set_name("")
        mid = [a + b for a, b in zip(los, ups)]
    xs = [[100 + 7 * i + i * i for i in range(d)], [rng.randint(-5, 5) for _ in range(d)], [1] * d]
    outs = []
    for s in range(2**d):
        seen: tp.List[tp.Any] = []

        def inner(x: np.ndarray) -> float:
            seen.append([int(round(v)) for v in x])
            return float(len(seen))

        f = base.ArrayExperimentFunction(inner, param.copy() if s % 2 else param, symmetry=s)
        res = [f(np.array(x, dtype=float)) for x in xs]
        res += [f.evaluation_function(f.parametrization.spawn_child())]
        assert res == [1.0, 2.0, 3.0, 4.0]
        outs.append(seen[:3])
    return trace([dict(k="sym", xs=xs, mid=mid, outs=outs)], job=job, bounds=kind)


class Line(ExperimentFunction):
    """sum of the variables multiplied by a factor, plus a constant"""

    def __init__(self, factor: int = 1, const: int = 0, dim: int = 2) -> None:
        self.factor, self.const = factor, const
        super().__init__(self.compute, ng.p.Array(shape=(dim,)).set_name(""))

    def compute(self, x: tp.Any) -> float:
        return float(self.factor * np.sum(x) + self.const)


def packs(job: tp.Any) -> tp.Any:
    rng = random.Random(f"pack{job}")
    ev: tp.List[tp.Any] = []
    n = rng.randint(1, 4)
    lines = [Line(rng.randint(-3, 3), rng.randint(-9, 9)) for _ in range(n)]
    multi: tp.Any = MultiExperiment(lines, [10 * (i + 1) for i in range(n)])
    copies = [multi, multi.copy(), multi.copy().copy()]
    for f in copies:
        for _ in range(3):
            x = np.array([rng.randint(-4, 4), rng.randint(-4, 4)], dtype=float)
            out = f(x)
            ev.append(dict(k="multi", vals=[int(r(x)) for r in lines], out=[int(round(v)) for v in np.asarray(out).ravel()]))
        ev.append(dict(k="info", got=repr([list(f.multiobjective_upper_bounds), f.dimension, f.descriptors["name"]]), want=repr([[10.0 * (i + 1) for i in range(n)] if False else [10 * (i + 1) for i in range(n)], 2, multi.descriptors["name"]])))
    ids = [id(x) for f in copies for x in f._experiments]
    ev.append(dict(k="info", got=repr(len(set(ids))), want=repr(3 * n)))
    # evaluation of a front
    ub = [rng.randint(2, 8), rng.randint(2, 8)]
    two: tp.Any = MultiExperiment([Line(1), Line(1)], ub)
    cands, losses = [], []
    for _ in range(rng.randint(1, 4)):
        cand = two.parametrization.spawn_child()
        loss = [rng.randint(0, 9), rng.randint(0, 9)]
        cand._losses = np.array(loss, dtype=float)
        cands.append(cand)
        losses.append(loss)
    val, whole = number(two.evaluation_function(*cands))
    ev.append(dict(k="hv", losses=losses, ub=ub, val=val, whole=whole))
    # special evaluations
    test = Line(rng.choice([1, -1]), rng.randint(-9, 9))
    size = rng.choice([None, None, 1, 2, 3])
    m = rng.randint(1, 5) if size is not None else rng.randint(1, 3)
    special: tp.Any = helpers.SpecialEvaluationExperiment(two, test, pareto_size=size, pareto_subset=rng.choice(["random", "loss-covering", "hypervolume", "domain-covering", "EPS"]))
    special.multiobjective_upper_bounds = np.array(ub)
    front, vals = [], []
    for i in range(m):  # incomparable losses
        cand = two.parametrization.spawn_child(new_value=np.array([rng.randint(-4, 4), rng.randint(-4, 4)], dtype=float))
        cand._losses = np.array([i / 10, (m - i) / 10], dtype=float)
        front.append(cand)
        vals.append(int(test(*cand.args)))
    for f in [special, special.copy()]:
        for _ in range(2):
            val, whole = number(f.evaluation_function(*front))
            ev.append(dict(k="best", vals=vals, got=val if whole else -99999, exact=size is None or m <= size))
        x = np.array([rng.randint(-4, 4), rng.randint(-4, 4)], dtype=float)
        ev.append(dict(k="multi", vals=[int(np.sum(x))] * 2, out=[int(v) for v in f(x)]))
    # cross validation
    n = rng.randint(2, 4)
    xps = [Line(rng.randint(1, 3), 10 * i) for i in range(n)]
    extra = [Line(7, 70)] if rng.random() < 0.4 else []
    methods = ("random", "EPS")[: rng.randint(1, 2)]
    crossed = helpers.SpecialEvaluationExperiment.create_crossvalidation_experiments(xps, training_only_experiments=extra, pareto_size=3, pareto_subset_methods=methods)
    ev.append(dict(k="info", got=repr(len(crossed)), want=repr(n * len(methods))))
    x = np.array([rng.randint(-4, 4), rng.randint(-4, 4)], dtype=float)
    for i, xp in enumerate(crossed):
        left = xps[i % n]
        got = [int(v) for v in np.asarray(xp(x)).ravel()]
        cand = xp.parametrization.spawn_child(new_value=x)
        cand._losses = np.zeros(1)
        ev.append(dict(k="cross", train=[int(y(x)) for y in xps if y is not left] + [int(y(x)) for y in extra], got=got, test=int(left(x)), eval=int(xp.evaluation_function(cand))))
    # far optimum
    for ism in [False, True]:
        o = rng.choice([(80, 100), (3, 4), (10, 1)])
        far = FarOptimumFunction(multiobjective=ism, optimum=o, independent_sigma=rng.random() < 0.5, mutable_sigma=rng.random() < 0.5, recombination=rng.choice(["crossover", "average"]))
        for f in [far, far.copy()]:
            ix = [rng.randint(-9, 99), rng.randint(-9, 99)]
            loss = f(np.array(ix, dtype=float))
            comp = [int(v) for v in np.abs(np.array(ix) - np.array(o))] if not ism else [int(v) for v in loss]
            cands = [f.parametrization.spawn_child(new_value=np.array(y, dtype=float)) for y in ([ix[0] + 500, ix[1]], ix)]
            fub = f.multiobjective_upper_bounds
            ev.append(dict(k="far", o=list(o), x=ix, ism=ism, multi=comp, mono=int(loss) if not ism else sum(comp), best=int(f.evaluation_function(*cands)),
                           ub=[] if fub is None else [int(v) for v in fub]))
    return trace(ev, job=job)


def run_C21(chk: Check) -> None:
    objs = dict(Depth=chk.scale(4, 5), Mode="objects", EMIT=False)
    chk.model("ExperimentsMC", split_cfg("Spec", objs, invs=["InvCopy", "InvReflect"], props=["PropIndependent"]), name="copies")
    chk.model("ExperimentsMC", split_cfg("Spec", dict(Depth=2, Mode="know", EMIT=False), invs=["InvKnow", "InvBlocks"], props=["PropLearn"]), name="knowledge")
    hists = chk.behaviours("ExperimentsMC", split_cfg("Spec", dict(objs, Depth=3 if chk.tier == "quick" else 4, EMIT=True)), name="histories")
    rng = random.Random(chk.seed)
    if len(hists) > chk.scale(4000, 40000):
        hists = rng.sample(hists, chk.scale(4000, 40000))
    found = collect(chk, pmap(instances, [(h, i) for i, h in enumerate(hists)], timeout=100, chunksize=64), "instances")
    chk.behaviours_replayed += len(found)
    chk.judge("ExperimentsT", found, "copies of experiment functions")
    inst = next(t for t in found if t["ev"][-1]["op"] == "copy" and len(t["ev"][-1]["obs"]) > 1 and any(e["op"] == "flag" for e in t["ev"]))
    jobs: tp.List[tp.Any] = [(n, d, chk.seed, chk.scale(12, 200)) for n in CORES for d in range(1, 5) if d > 1 or n != "rosenbrock"]
    jobs += [(n, d, chk.seed, chk.scale(12, 200)) for n in DISCRETE for d in range(1, 13)]
    found = collect(chk, pmap(cores, jobs, timeout=60, chunksize=8), "core functions")
    found += collect(chk, pmap(symmetries, [chk.seed * 10000 + i for i in range(chk.scale(150, 1500))], timeout=60, chunksize=8), "symmetries")
    found += collect(chk, pmap(packs, [chk.seed * 10000 + i for i in range(chk.scale(250, 3000))], timeout=100, chunksize=8), "packs")
    found += collect(chk, pmap(translated, [chk.seed * 10000 + i for i in range(chk.scale(250, 3000))], timeout=60, chunksize=8), "translations")
    sym = next(t for t in found if t["ev"][0]["k"] == "sym" and len(t["ev"][0]["mid"]) > 1)
    chk.judge("ExperimentsT", found, "functions")
    found = collect(chk, pmap(artificial, [(chk.seed * 10000 + i, 30) for i in range(chk.scale(700, 8000))], timeout=100, chunksize=8), "blocks")
    chk.judge("ExperimentsT", found, "artificial functions")
    fn = next(t for t in found if t["cfg"].get("fun") == "sphere" and any(e["op"] == "eval" for e in t["ev"]))

    def lost(t: tp.Any) -> None:
        t["ev"][-1]["obs"][-1]["flags"] = [x for x in (1, 2) if x not in t["ev"][-1]["obs"][-1]["flags"]]

    def wrong(t: tp.Any) -> None:
        e = next(e for e in t["ev"] if e["op"] == "eval")
        e["val"] += 1000

    def twice(t: tp.Any) -> None:
        t["ev"][0]["outs"][1] = t["ev"][0]["outs"][2]

    chk.selftest("ExperimentsT", inst, lost, "flags of a copy")
    chk.selftest("ExperimentsT", fn, wrong, "another value")
    chk.selftest("ExperimentsT", sym, twice, "twice the same symmetry")
