"""C23: mutations, crossovers and choices (spec/Variation.tla)"""
import itertools
import random
import typing as tp

import numpy as np
import scipy.stats
import nevergrad as ng
from nevergrad.optimization import mutations, utils
from nevergrad.parametrization import discretization, mutation

from common import Check, split_cfg
from util import collect, pmap


def event(ev: tp.Dict[str, tp.Any], **info: tp.Any) -> tp.Dict[str, tp.Any]:
    return dict(cfg=dict(x=0), ev=[ev], info=info)


def arrays(job: tp.Any) -> tp.Any:
    """outcomes of a layer, over many draws"""
    case, seed, draws, how = job
    shape, op = tuple(case["sh"]), case["op"]
    axes = tuple(a - 1 for a in case["axes"]) or None
    size = case["size"]
    n = int(np.prod(shape))
    if axes is not None and how % 2 and len(axes) == 1:
        axes = axes[0]  # type: ignore
    layer: tp.Any
    if op == "roll":
        layer = mutation.Translation(axes)
    elif op == "jump":
        layer = mutation.Jumping(axis=case["axes"][0] - 1, size=size)
    elif op == "cross":
        layer = mutation.Crossover(axis=axes, max_size=size or None)
    elif op == "ravel":
        layer = mutation.RavelCrossover(max_size=size or None)
    else:
        layer = mutation.LocalGaussian(axes=axes, size=size)
    init = np.arange(1, n + 1, dtype=float).reshape(shape) if op != "patch" else np.zeros(shape)
    array = ng.p.Array(init=init)
    if op not in ["roll", "jump"] and how % 3 == 0:
        array.set_bounds(-100, 100)
    x = layer(array)
    x.random_state = np.random.RandomState(seed)
    y = x.spawn_child(new_value=init + n)
    outs: tp.Set[tp.Tuple[int, ...]] = set()
    for _ in range(draws):
        child = x.spawn_child()
        if op in ["cross", "ravel"]:
            child.recombine(y)
            outs.add(tuple(int(round(v)) for v in child.value.ravel()))
        else:
            child.mutate()
            v = child.value
            assert v.shape == shape
            outs.add(tuple(int(round(u)) for u in v.ravel()) if op != "patch" else tuple(int(i) + 1 for i in np.nonzero(v.ravel())[0]))
    return event(dict(case, k="array", outs=sorted(outs)), job=job)


def bins(x: tp.Any, arity: int) -> tp.List[int]:
    return [int(b) for b in np.minimum(np.floor(arity * scipy.stats.norm.cdf(np.asarray(x, dtype=float))), arity - 1)]


def discrete(job: tp.Any) -> tp.Any:
    op, d, arity, num, draws = job
    rng = random.Random(f"disc{job}")
    mut = mutations.Mutator(np.random.RandomState(num))
    par = scipy.stats.norm.ppf((np.array([rng.randrange(arity) for _ in range(d)]) + np.array([rng.choice([0.25, 0.5, 0.75]) for _ in range(d)])) / arity)
    outs = []
    kw: tp.Dict[str, tp.Any] = {}
    rate = 0.0
    if op == "rls":
        func: tp.Any = mut.rls_mutation
    elif op == "discrete":
        func = mut.discrete_mutation
        rate = 1.0 / (1 - (1 - 1.0 / d) ** d)
    elif op.startswith("portfolio"):
        func = mut.portfolio_discrete_mutation
        if op != "portfolio":
            kw["intensity"] = min(int(op[9:]), d)
            k = kw["intensity"]
            rate = k / (1 - (1 - k / d) ** d)
    elif op == "doerr":
        func = mut.doerr_discrete_mutation
        if d < 5 and arity % 2 == 0:
            rate = 1.0 / (1 - (1 - 1.0 / d) ** d)
    else:
        func = mut.doubledoerr_discrete_mutation
        if op != "doubledoerr":
            kw["max_ratio"] = float(op[11:])
    given = list(par) if num % 2 else par.copy()
    for _ in range(draws):
        out = func(given, arity=arity, **kw)
        out = np.asarray(out, dtype=float)
        assert out.shape == par.shape
        outs.append([[bool(s), b] for s, b in zip(out == par, bins(out, arity))])
    assert np.array_equal(np.asarray(given), par)  # the point is not modified
    return event(dict(k="disc", op=op, par=bins(par, arity), outs=outs, rate=int(round(100 * rate)) if d > 1 else 0, small=int(op == "doerr" and d < 5 and arity % 2)), job=job)


def mixes(job: tp.Any) -> tp.Any:
    kind, d, num, draws = job
    rng = random.Random(f"mix{job}")
    values = sorted({round(rng.gauss(0, 1), 6) for _ in range(4 * d)} - {0.0})
    rng2 = values[:]
    rng.shuffle(rng2)
    par, don = rng2[:d], rng2[d: 2 * d]
    rank = {v: i + 1 for i, v in enumerate(values)}

    def code(x: float) -> tp.List[int]:
        return [rank.get(float(x), 0), int(x > 0)]

    mut = mutations.Mutator(np.random.RandomState(num))
    outs = []
    for _ in range(draws):
        kw: tp.Dict[str, tp.Any] = dict(rotation=True) if kind == "rotation" else dict(crossover_type=kind)
        outs.append([code(x) for x in mut.crossover(np.array(par), np.array(don), **kw)])
    return event(dict(k="mix", kind=kind, par=[code(x) for x in par], don=[code(x) for x in don], outs=outs), job=job)


def picks(job: tp.Any) -> tp.Any:
    n, size, num = job
    rng = np.random.RandomState(num)
    archive: tp.Any = utils.Archive()
    ranks = list(rng.permutation(n) + 1)
    points = {}
    for i, r in enumerate(ranks):
        x = np.array([float(i), -float(r)])
        points[tuple(x)] = int(r)
        archive[x] = utils.MultiValue(ng.p.Array(init=x), float(r), reference=ng.p.Array(shape=(2,)))
    mut = mutations.Mutator(np.random.RandomState(num))
    got = [points[tuple(mut.get_roulette(archive, **(dict(num=size) if size else {})))] for _ in range(60)]
    return event(dict(k="pick", ranks=[int(r) for r in ranks], num=size, got=got), job=job)


class Values:
    def __init__(self) -> None:
        self.keys: tp.Dict[tp.Any, int] = {}

    def __call__(self, v: tp.Any) -> int:
        return self.keys.setdefault(repr(v), len(self.keys) + 1)


def choices(job: tp.Any) -> tp.Any:
    """random histories of a choice"""
    trans, num = job
    rng = random.Random(f"choice{job}")
    n = rng.randint(1 if not trans else 2, 5)
    reps = rng.choice([None, None, 1, 2, 3])
    consts = [rng.random() < 0.6 for _ in range(n)]
    opts: tp.List[tp.Any] = []
    for i, c in enumerate(consts):
        opts.append(f"o{i}" if c else rng.choice([ng.p.Scalar, lambda: ng.p.Array(shape=(2,)), lambda: ng.p.Scalar(lower=-200, upper=500).set_mutation(sigma=0.1), lambda: ng.p.Tuple(ng.p.Scalar(), "a")])())
    det = rng.random() < 0.4
    param: tp.Any = (
        ng.p.TransitionChoice(opts, repetitions=reps, ordered=rng.random() < 0.6, transitions=rng.choice([(1.0, 1.0), (0.0, 1.0), (1.0, 3.0, 2.0)]))
        if trans else ng.p.Choice(opts, repetitions=reps, deterministic=det))
    param.random_state = np.random.RandomState(num)
    base, tok = param, Values()
    cur = param.spawn_child()
    traces = []

    def options() -> tp.List[int]:
        return [tok(opt.value if isinstance(opt, ng.p.Parameter) else opt) for opt in cur.choices]

    ev = []
    cur.value  # pylint: disable=pointless-statement
    for _ in range(12):
        cur = cur.spawn_child()
        before = options()
        k = rng.choice(["mutate", "mutate", "set", "sample", "data"])
        want: tp.List[int] = []
        if k == "mutate":
            cur.mutate()
        elif k == "set":
            names = [o for o in opts if isinstance(o, str)]
            if not names:
                continue
            pick = [rng.choice(names) for _ in range(reps or 1)]
            cur.value = pick[0] if reps is None else rng.choice([list, tuple])(pick)
            want = [tok(v) for v in pick]
        elif k == "sample":
            cur = cur.sample()
        else:
            cur.set_standardized_data(np.array([rng.gauss(0, 1) for _ in range(base.dimension)]), reference=base)
        isdet = det and not trans
        val = cur.value
        val2 = cur.value
        assert repr(val) == repr(val2)  # drawn once
        w: tp.List[tp.List[int]] = []
        if not trans:
            data = cur.indices.get_standardized_data(reference=base.indices).reshape((reps or 1, n))
            w = [[int(round(1e6 * v)) for v in row] for row in np.clip(data, -2100, 2100)]
            if any(len(row) > 1 and len(set(np.sort(row)[-2:])) == 1 for row in w) or np.max(np.abs(data)) > 2000:
                w = []
        ev.append(dict(k=k, n=n, reps=reps or 1, consts=consts, before=before, after=options(), idx=[int(i) + 1 for i in cur.indices.value],
                       val=[tok(v) for v in (val if reps is not None else [val])], w=w, det=isdet, want=want))
    traces.append(dict(cfg=dict(x=0), ev=ev, info=dict(job=job)))
    return traces


def frequencies(job: tp.Any) -> tp.Any:
    num, draws = job
    rng = random.Random(f"freq{num}")
    n = rng.randint(1, 5)
    kind = rng.choice(["softmax", "softmax", "encoder", "moves", "unordered", "even", "bins", "bins"])
    out: tp.List[tp.Any] = []
    if kind in ["softmax", "encoder"]:
        reps = rng.choice([None, 1, 2])
        w = [[rng.choice([0, 1, 1, 2, 3]) if kind == "encoder" else rng.randint(1, 4) for _ in range(n)] for _ in range(reps or 1)]
        for row in w:
            if not any(row):
                row[:] = [0] * n
        with np.errstate(divide="ignore"):
            logs = np.log(np.array(w, dtype=float))
        counts = np.zeros((reps or 1, n), dtype=int)
        param = ng.p.Choice(n, repetitions=reps)
        rs = np.random.RandomState(num)
        param.random_state = rs
        shift = rng.choice([0.0, 3.0, -700.0])
        big = rng.random() < 0.3 and kind == "encoder"
        for row, logrow in zip(w, logs):  # infinite weights replace all the others, nans are ignored
            if big:
                logrow[:] = [np.inf if v == 3 else u for v, u in zip(row, logrow)]
            elif kind == "encoder":
                logrow[:] = [rng.choice([np.nan, u]) if v == 0 else u for v, u in zip(row, logrow)]
        for _ in range(draws):
            if kind == "softmax":
                child = param.spawn_child()
                child.set_standardized_data(logs.ravel() + shift, reference=param)
                inds = child.indices.value
            else:
                inds = discretization.Encoder(logs + shift, rs).encode()
            for r, i in enumerate(inds):
                counts[r, int(i)] += 1
        for r, row in enumerate(w):
            expected = row if any(row) else [1] * n
            if big and 3 in row:
                expected = [int(v == 3) for v in row]
            out.append(event(dict(k="freq", count=[int(c) for c in counts[r]], draws=draws, w=expected), job=job, kind=kind))
    elif kind in ["moves", "unordered"]:
        n = max(n, 2)
        t = rng.choice([[1, 1], [0, 1], [1, 3], [2, 1, 1], [1, 0, 2]])
        param2 = ng.p.TransitionChoice(n, transitions=[float(x) for x in t], ordered=kind == "moves")
        param2.random_state = np.random.RandomState(num)
        i = rng.randrange(n)
        start = param2.spawn_child(new_value=i)
        count = [0] * n
        for _ in range(draws):
            child2 = start.spawn_child()
            child2.mutate()
            count[child2.index] += 1
        out.append(event(dict(k="moves", n=n, t=t, i=i + 1, count=count, draws=draws) if kind == "moves" else dict(k="freq", count=count, draws=draws, w=[1] * n), job=job))
    elif kind == "even":  # a normal variable gives a uniform index
        n = max(n, 2)
        param3 = ng.p.TransitionChoice(n, ordered=rng.random() < 0.5)
        m = 40 * n
        seen = []
        for j in range(m):
            child3 = param3.spawn_child()
            child3.set_standardized_data(scipy.stats.norm.ppf([(j + 0.5) / m]), reference=param3)
            seen.append(int(child3.index))
        out.append(event(dict(k="bins", n=n, bins=seen, low=0, high=n - 1, nan=0, back=list(range(n)), noisy=list(range(n))), job=job))
    else:
        n = rng.randint(2, 60)
        m = rng.choice([10, 20]) * n
        grid = scipy.stats.norm.ppf((np.arange(m) + 0.5) / m)
        gen = np.random.RandomState(num)
        thresh = discretization.threshold_discretization
        back = discretization.inverse_threshold_discretization(list(range(n)), n)
        noisy = discretization.noisy_inverse_threshold_discretization(list(range(n)), n, gen)
        out.append(event(dict(k="bins", n=n, bins=thresh(grid, n), low=thresh([-50.0], n)[0], high=thresh([50.0], n)[0], nan=thresh([np.nan], n)[0],
                              back=thresh(back, n), noisy=thresh(noisy, n)), job=job))
    return out


def means(job: tp.Any) -> tp.Any:
    rng = random.Random(f"mean{job}")
    param: tp.Any = rng.choice([
        lambda: ng.p.Array(shape=(rng.randint(1, 3), 2)), lambda: ng.p.Scalar(), lambda: ng.p.Scalar(lower=-300, upper=300), lambda: ng.p.Log(lower=0.001, upper=1000),
        lambda: ng.p.Dict(x=ng.p.Scalar(), y=ng.p.Array(shape=(2,)), z="const"), lambda: ng.p.Instrumentation(ng.p.Scalar(), a=ng.p.Tuple(ng.p.Scalar(), ng.p.Array(shape=(3,)))),
        lambda: ng.p.Choice([1, 2, ng.p.Scalar()]), lambda: ng.p.Array(shape=(3,)).set_integer_casting()])()
    param.random_state = np.random.RandomState(job)
    k = rng.randint(1, 4)
    insts = []
    for _ in range(k + 1):
        inst = param.spawn_child()
        inst.set_standardized_data(np.array([rng.uniform(-2, 2) for _ in range(param.dimension)]), reference=param)
        insts.append(inst)
    def data(x: tp.Any) -> tp.List[int]:
        return [int(round(1e4 * v)) for v in x.get_standardized_data(reference=param)]

    ins = [data(x) for x in insts]
    others = insts[1:] if rng.random() < 0.8 else []
    insts[0].recombine(*others)
    ins2 = [data(x) for x in insts[1:]]
    out = [event(dict(k="mean", ins=ins if others else ins[:1], out=data(insts[0])), job=job)]
    out.append(event(dict(k="mean", ins=[[v for x in ins[1:] for v in x]], out=[v for x in ins2 for v in x]), job=job))  # the others are not modified
    return out


NAMES = ["RLSOnePlusOne", "DiscreteOnePlusOne", "PortfolioDiscreteOnePlusOne", "DoubleFastGADiscreteOnePlusOne", "FastGADiscreteOnePlusOne", "AdaptiveDiscreteOnePlusOne", "DiscreteLenglerOnePlusOne",
         "DiscreteLengler2OnePlusOne", "DiscreteLengler3OnePlusOne", "DiscreteLenglerHalfOnePlusOne", "DiscreteLenglerFourthOnePlusOne", "LognormalDiscreteOnePlusOne", "XLognormalDiscreteOnePlusOne",
         "TinyLognormalDiscreteOnePlusOne", "HugeLognormalDiscreteOnePlusOne", "DiscreteBSOOnePlusOne", "DiscreteLenglerOnePlusOneT"]


def asks(job: tp.Any) -> tp.Any:
    name, num = job
    rng = random.Random(f"opt{job}")
    n, d = rng.choice([2, 3, 4, 5, 7, 8]), rng.randint(2, 7)  # with 6 values, the initial point is exactly between 2 values
    if name.startswith("FastGA"):  # it ignores the number of values below 5 variables (see the known findings)
        d = max(d, 5)
    param: tp.Any = (ng.p.TransitionChoice(n, repetitions=d, ordered=rng.random() < 0.6) if rng.random() < 0.5
                     else ng.p.Instrumentation(*[ng.p.TransitionChoice(n, ordered=rng.random() < 0.6) for _ in range(d)]))
    param.random_state = np.random.RandomState(num)
    opt = (ng.optimizers.ParametrizedOnePlusOne(mutation="fastga") if name.startswith("FastGA") else ng.optimizers.registry[name])(param, budget=200, num_workers=rng.choice([1, 1, 3]))

    def vec(x: tp.Any) -> tp.List[int]:
        v = x.value if not isinstance(x, ng.p.Instrumentation) else x.args
        return [int(i) for i in v]

    known = {param.uid: vec(param)}
    ev = []
    pending: tp.List[tp.Any] = []
    for i in range(30):
        cand = opt.ask()
        known[cand.uid] = vec(cand)
        if i and cand.parents_uids and cand.parents_uids[0] in known:
            ev.append(dict(k="opt", exact=name == "RLSOnePlusOne", par=known[cand.parents_uids[0]], child=vec(cand)))
        pending.append(cand)
        while pending and (len(pending) >= opt.num_workers or rng.random() < 0.5):
            opt.tell(pending.pop(rng.randrange(len(pending))), rng.randrange(20))
    return dict(cfg=dict(x=0), ev=ev, info=dict(job=job))


def run_C23(chk: Check) -> None:
    invs = ["InvRoll", "InvJump", "InvCross", "InvPatch"]
    consts = dict(MaxLen=4, MaxSize=chk.scale(12, 18), MaxDims=3, EMIT=False)
    chk.model("VariationMC", split_cfg("Spec", consts, invs=invs), name="small arrays")
    chk.model("VariationMC", split_cfg("Spec", dict(consts, MaxLen=2, MaxSize=2, MaxDims=1), invs=["InvMasks", "InvMoves"]), name="masks and transitions")
    cases = [h for h in chk.behaviours("VariationMC", split_cfg("Spec", dict(consts, EMIT=True)), name="cases")]
    draws = chk.scale(250, 1500)
    traces = collect(chk, pmap(arrays, [(c, chk.seed * 1000 + i, draws, i) for i, c in enumerate(cases)], timeout=200, chunksize=8), "arrays")
    chk.behaviours_replayed += len(traces)
    chk.judge("VariationT", traces, "mutations and crossovers of arrays")
    block = next(t for t in traces if t["ev"][0]["op"] == "cross" and len(t["ev"][0]["outs"]) > 3)
    ops = ["rls", "discrete", "portfolio", "portfolio1", "portfolio2", "portfolio3", "doerr", "doubledoerr", "doubledoerr0.5", "doubledoerr0.25"]
    jobs = [(op, d, a, chk.seed * 100 + i, 200) for op in ops for d in range(2, chk.scale(9, 13)) for a in [2, 3, 4, 5, 7, 20] for i in range(chk.scale(1, 6))]
    disc = collect(chk, pmap(discrete, jobs, timeout=200, chunksize=8), "discrete mutations")
    chk.judge("VariationT", disc, "discrete mutations")
    jobs = [(kind, d, chk.seed * 100 + i, 200) for kind in ["none", "max", "min", "onepoint", "twopoint", "rand", "rotation"] for d in range(2, 10) for i in range(chk.scale(2, 20))]
    found = collect(chk, pmap(mixes, jobs, timeout=200, chunksize=4), "crossovers")
    found += collect(chk, pmap(picks, [(n, s, chk.seed * 100 + i) for n in range(1, chk.scale(14, 40)) for s in [0, 1, 2, 3, 5] for i in range(2)], timeout=100, chunksize=8), "tournaments")
    chk.judge("VariationT", found, "crossovers and tournaments")
    jobs = [(t, chk.seed * 10000 + i) for t in [False, True] for i in range(chk.scale(300, 4000))]
    found = collect(chk, pmap(choices, jobs, timeout=100, chunksize=8), "choices")
    chk.judge("VariationT", found, "choices")
    picked = next(t for t in found if any(e["k"] == "mutate" and e["before"] != e["after"] for e in t["ev"]))
    found = collect(chk, pmap(frequencies, [(chk.seed * 10000 + i, 1500) for i in range(chk.scale(160, 1500))], timeout=300, chunksize=4), "frequencies")
    found += collect(chk, pmap(means, [chk.seed * 10000 + i for i in range(chk.scale(300, 3000))], timeout=100, chunksize=8), "recombinations")
    chk.judge("VariationT", found, "draws and recombinations")
    freq = next(t for t in found if t["ev"][0]["k"] == "freq" and len(t["ev"][0]["count"]) > 2)
    found = collect(chk, pmap(asks, [(name, chk.seed * 1000 + i) for name in NAMES for i in range(chk.scale(10, 120))], timeout=100, chunksize=4), "asks")
    chk.judge("VariationT", found, "new points of the discrete optimizers")

    def cut(t: tp.Any) -> None:
        e = t["ev"][0]
        e["outs"] = [list(range(len(e["outs"][0]) + 1, 2 * len(e["outs"][0]) + 1))] + [list(o) for o in e["outs"]]

    def other(t: tp.Any) -> None:
        e = next(e for e in t["ev"] if e["k"] == "mutate" and e["before"] != e["after"])
        e["after"] = [x + 1000 for x in e["after"]]

    def biased(t: tp.Any) -> None:
        c = t["ev"][0]["count"]
        c[0], c[1] = c[0] + c[1] // 2 + 150, c[1] - c[1] // 2 - 150

    chk.selftest("VariationT", block, cut, "whole array exchanged")
    chk.selftest("VariationT", picked, other, "other options modified")
    chk.selftest("VariationT", freq, biased, "biased draws")
