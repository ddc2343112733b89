"""C05: cheap constraints, constraint violations, tabu list (spec/Constraints.tla)"""
import pickle
import random
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.common import errors

from common import Check, split_cfg
from util import BIG, cap, collect, pmap
import zoo


# ---- constraints: functions of the value, and the same as told to nevergrad ------------------
def half(x: tp.Any) -> bool:
    return bool(x[0] + x[1] >= 0)


def half_float(x: tp.Any) -> float:
    return float(x[0] + x[1])


def ball(x: tp.Any) -> float:
    return float(0.3 - (x[0] - 1) ** 2 - (x[1] + 1) ** 2)


def never(x: tp.Any) -> bool:
    return False


def positive(x: tp.Any) -> float:
    return float(x)


def instru(value: tp.Any) -> bool:
    (args, kwargs) = value
    return bool(args[0] + kwargs["k"] >= 0.5)


def build(kind: str) -> tp.Tuple[tp.Any, tp.Callable[[tp.Any], bool], bool]:
    """parametrization, independent evaluation of the constraint, whether it is hard to satisfy"""
    if kind in ("half", "half_float", "ball", "never"):
        param: tp.Any = ng.p.Array(shape=(2,))
        func = {"half": half, "half_float": half_float, "ball": ball, "never": never}[kind]
        param.register_cheap_constraint(func)
        return param, lambda v: float(func(v)) > 0 or (not isinstance(func(v), bool) and func(v) >= 0), kind in ("ball", "never")
    if kind == "both":
        param = ng.p.Array(shape=(2,))
        param.register_cheap_constraint(half)
        param.register_cheap_constraint(_small)
        return param, lambda v: half(v) and _small(v), True
    if kind == "instru":
        param = ng.p.Instrumentation(ng.p.Scalar(lower=-1, upper=1), k=ng.p.Scalar(lower=0, upper=1), c=ng.p.Choice([1, 2]))
        param.register_cheap_constraint(instru)
        return param, instru, False
    if kind == "inner":
        inner = ng.p.Scalar()
        inner.register_cheap_constraint(positive)
        param = ng.p.Tuple(inner, ng.p.Choice([1, 2, 3]))
        return param, lambda v: v[0] >= 0, False
    raise ValueError(kind)


def _small(x: tp.Any) -> bool:
    return bool(x[0] ** 2 + x[1] ** 2 < 2)


class Spied:
    """losses which the algorithm is told"""

    def __init__(self, opt: tp.Any) -> None:
        self.opt = opt
        self.inner: tp.List[float] = []
        for name in ("_internal_tell_candidate", "_internal_tell_not_asked"):
            method = getattr(opt, name)
            setattr(opt, name, self._wrap(method))

    def close(self) -> None:
        """no reference cycle: the threads of recast optimizers stop when the optimizer is deleted"""
        for name in ("_internal_tell_candidate", "_internal_tell_not_asked"):
            delattr(self.opt, name)

    def _wrap(self, method: tp.Any) -> tp.Any:
        inner = self.inner

        def wrapper(candidate: tp.Any, loss: float) -> tp.Any:
            inner.append(loss)
            return method(candidate, loss)

        return wrapper


def _nrec(opt: tp.Any) -> int:
    return int(sum(mv.count for mv in opt.archive.values()))


def _best(opt: tp.Any) -> int:
    return cap(opt.current_bests["minimum"].get_estimation("minimum")) if _nrec(opt) else BIG


def ask(opt: tp.Any, check: tp.Callable[[tp.Any], bool]) -> tp.Tuple[tp.Any, tp.Dict[str, tp.Any]]:
    cand, err = None, ""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            cand = opt.ask()
        except Exception as e:  # pylint: disable=broad-except
            err = type(e).__name__
    warn = any(issubclass(w.category, errors.FailedConstraintWarning) for w in caught)
    return cand, dict(k="ask", err=err, nask=int(opt.num_ask), sat=bool(cand is not None and check(cand.value)), warn=warn)


def tell(spied: Spied, cand: tp.Any, loss: int, viol: tp.Any, sat: bool) -> tp.Dict[str, tp.Any]:
    opt = spied.opt
    spied.inner.clear()
    err = ""
    try:
        if viol is None:
            opt.tell(cand, float(loss))
        else:
            opt.tell(cand, float(loss), viol)
    except Exception as e:  # pylint: disable=broad-except
        err = repr(e)[:80]
    v = 0.0 if viol is None else float(np.sum(np.maximum(viol, 0)))
    return dict(k="tell", err=err, ntell=int(opt.num_tell), sat=sat, viol=1 if v > 0 else 0, loss=loss, nrec=_nrec(opt),
                best=_best(opt), inner=[_up(x) for x in spied.inner])


def _up(x: float) -> int:
    """scaled; small penalties must not vanish in the rounding"""
    r = cap(x, 1000)
    return r + 1 if x * 1000 > r + 1e-9 and r < BIG else r


def replay(job: tp.Any) -> tp.Any:
    name, budget, hists = job
    out = []
    for i, h in enumerate(hists):
        param, check, _ = build("half_float")
        param.random_state.seed(i)
        opt = zoo.make(name, param, budget=30 if budget else None, num_workers=4)
        sp = Spied(opt)
        ev = []
        waiting = []
        for num, e in enumerate(h):
            if e["k"] == "ask":
                cand, event = ask(opt, check)
                ev.append(event)
                if cand is not None:
                    waiting.append(cand)
            else:
                if e["sat"] and waiting:
                    cand = waiting.pop()
                else:
                    cand = param.spawn_child(new_value=np.array([1.0 + num, 0.5]) * (1 if e["sat"] else -1))
                viol: tp.Any = None if e["viol"] < 0 and i % 2 else [-0.5, -1.0] if e["viol"] < 0 else float(e["viol"])
                ev.append(tell(sp, cand, e["loss"], viol, check(cand.value)))
        sp.close()
        if name in ("RandomSearch", "OnePlusOne", "DE"):
            ev.append(dict(k="recom", sat=check(opt.recommend().value)))
        out.append(dict(cfg=dict(budget=budget, tabu=0, hard=False, nested=False), ev=ev, info=dict(optimizer=name, history=h)))
    return out


def randomized(job: tp.Any) -> tp.Any:
    name, kind, seed = job
    rng = random.Random(f"constr{job}")
    np.random.seed(seed)
    param, check, hard = build(kind)
    param.random_state.seed(rng.randrange(2**31))
    budget = 60 if rng.random() < 0.8 else None
    if name in ("NGOpt", "TBPSA", "CMA", "LHSSearch") or name not in zoo.CORE:
        budget = 60
    opt = zoo.make(name, param, budget=budget, num_workers=rng.choice([1, 3]))
    if hard or rng.random() < 0.3:
        opt._constraints_manager.update(max_trials=20 if hard else 200, penalty_factor=rng.choice([1.0, 0.5]))
    sp = Spied(opt)
    ev = []
    waiting: tp.List[tp.Any] = []
    refuses = opt.no_parallelization
    for _ in range(rng.choice([8, 20]) if not hard else 4):
        if len(waiting) < opt.num_workers and (not waiting or rng.random() < 0.5) and not (refuses and waiting):
            cand, event = ask(opt, check)
            ev.append(event)
            if cand is None:
                break
            waiting.append(cand)
        else:
            if rng.random() < 0.85 or refuses:
                cand = waiting.pop(rng.randrange(len(waiting)))
            else:
                cand = param.sample()
            viol = rng.choice([None, None, None, 0.0, -1.0, [0.0, -2.0], 0.5, [1.5, -3.0], np.array([0.25, 0.25])])
            event = tell(sp, cand, rng.randint(0, 9), viol, check(cand.value))
            if event["err"].startswith("TellNotAskedNotSupported"):  # documented refusal (see C02)
                break
            ev.append(event)
    sp.close()
    if name in ("RandomSearch", "OnePlusOne", "DE", "TwoPointsDE", "DiscreteOnePlusOne"):
        ev.append(dict(k="recom", sat=check(opt.recommend().value)))
    return dict(cfg=dict(budget=budget is not None, tabu=0, hard=hard, nested=kind == "inner"), ev=ev, info=dict(job=job))


def monotone(job: tp.Any) -> tp.Any:
    """the same tell with several violations"""
    seed, cheap = job
    rng = random.Random(f"mono{job}")
    param = ng.p.Array(shape=(2,))
    if cheap:
        param.register_cheap_constraint(half_float)
    param.random_state.seed(seed)
    opt = ng.optimizers.RandomSearch(param, budget=rng.choice([10, 100]), num_workers=1)
    for _ in range(rng.randint(0, 12)):
        opt.tell(opt.ask(), float(rng.randint(0, 4)))
    data = pickle.dumps(opt)
    loss = float(rng.randint(1, 3))
    rows = []
    style = rng.choice([None, None, (1e3, 1.0, 1.0, 1.0, 0.5, 1.0)])
    for v in sorted(rng.sample(range(1, 60), 5)):
        o = pickle.loads(data)
        sp = Spied(o)
        if cheap:
            cand = param.spawn_child(new_value=np.array([-v / 20.0, 0.0]))
            o.tell(cand, loss)
        else:
            cand = param.spawn_child(new_value=np.array([0.5, 0.5]))
            args = [v / 20.0] if rng.random() < 0.5 else [v / 20.0, -4.0]
            o.tell(cand, loss, args, style) if style is not None else o.tell(cand, loss, args)
        rows.append((v, sp.inner[-1]))
    order = {x: i for i, x in enumerate(sorted({r[1] for r in rows}))}
    ev = [dict(k="cmp", viol1=a[0], viol2=b[0], inner1=order[a[1]], inner2=order[b[1]]) for a, b in zip(rows, rows[1:])]
    return dict(cfg=dict(budget=True, tabu=0, hard=False, nested=False), ev=ev, info=dict(job=job, rows=rows))


def _tabu_value(kind: str, key: int) -> tp.Tuple[tp.Any, tp.Any]:
    if kind == "choice":
        return ng.p.Choice([1, 2, 3, 4, 5]), key
    if kind == "array":
        return ng.p.Array(shape=(2,)), np.array([0.5 * key, 1.0])
    if kind == "instru":
        return ng.p.Instrumentation(ng.p.Scalar(lower=0, upper=9), c=ng.p.Choice(["a", "b"])), ((1.0 * key,), {"c": "a"})
    if kind == "dict":
        return ng.p.Dict(x=ng.p.Array(shape=(2,)), y=ng.p.Choice([1, 2])), dict(x=np.array([key, 0.5]), y=1 + key % 2)
    raise ValueError(kind)


def tabu_replay(job: tp.Any) -> tp.Any:
    length, kind, hists = job
    out = []
    for h in hists:
        param = _tabu_value(kind, 1)[0]
        param.specify_tabu_length(length)
        refs = [param, param.copy()]
        ev: tp.List[tp.Any] = [dict(k="copy")]
        for e in h:
            if e["k"] == "copy":
                refs[1] = param.copy()
                ev.append(e)
                continue
            ref = refs[e["ref"] - 1]
            child = ref.spawn_child(new_value=_tabu_value(kind, e["key"])[1])
            ev.append(dict(k="try", key=e["key"], ref=e["ref"], res=bool(child.satisfies_constraints(ref))))
        out.append(dict(cfg=dict(budget=True, tabu=length, hard=False, nested=False), ev=ev, info=dict(kind=kind, history=h)))
    return out


def tabu_asks(job: tp.Any) -> tp.Any:
    """optimizers on a space which is larger than the tabu list (the optimizers must really propose new points: the
    list is ignored after 30 refusals)"""
    name, length, seed = job
    rng = random.Random(f"tabu{job}")
    np.random.seed(seed)
    param = ng.p.Instrumentation(ng.p.Choice([0, 1, 2, 3]), ng.p.Choice([0, 1, 2, 3]))
    param.random_state.seed(seed)
    opt = zoo.make(name, param, budget=60, num_workers=1)
    opt.parametrization.specify_tabu_length(length)
    ev = []
    for _ in range(40):
        cand, event = ask(opt, lambda v: True)
        if cand is not None:
            event["key"] = int(4 * cand.args[0] + cand.args[1])
        ev.append(event)
        if cand is None:
            break
        opt.tell(cand, float(rng.randint(0, 5)))
    return dict(cfg=dict(budget=True, tabu=length, hard=False, nested=False), ev=ev, info=dict(job=job))


NAMES = ["OnePlusOne", "RandomSearch", "DE", "TwoPointsDE", "CMA", "PSO", "NGOpt", "TBPSA", "LHSSearch", "ES", "RecES", "NelderMead",
         "Cobyla", "DiscreteOnePlusOne", "Portfolio", "QODE", "EDA", "NoisyDE", "SplitOptimizer", "HaltonSearch", "MetaModel",
         "ParametrizationDE", "cGA", "EMNA", "DiagonalCMA"]


def run_C05(chk: Check) -> None:
    rng = random.Random(chk.seed)
    invs = ["InvRecords", "InvBest", "InvWindow"]
    base = dict(MODE="tell", TABU=0, KEYS=1, REFS=1, EMIT=True)
    jobs = []
    for budget in (True, False):
        hists = chk.behaviours("ConstraintsMC", split_cfg("Spec", dict(base, MaxLen=chk.scale(3, 4), BUDGET=budget),
                                                          invs=invs if budget else invs[1:]), name=f"tell {budget}")
        rng.shuffle(hists)
        for name in ["RandomSearch", "OnePlusOne", "DE", "PSO"] if chk.quick else ["RandomSearch", "OnePlusOne", "DE", "PSO", "ES", "CMA"]:
            sub = hists[: chk.scale(700, 8000)]
            jobs += [(name, budget, sub[i : i + 100]) for i in range(0, len(sub), 100)]
    traces = collect(chk, pmap(replay, jobs, timeout=120), "model histories")
    chk.behaviours_replayed += len(traces)
    chk.judge("ConstraintsT", traces, "model histories of tells")
    jobs = []
    for length, refs in ((1, 1), (2, 1), (3, 1), (2, 2)):
        consts = dict(MODE="tabu", TABU=length, REFS=refs, KEYS=3, EMIT=True, BUDGET=True, MaxLen=chk.scale(6, 8) if refs == 1 else chk.scale(4, 5))
        hists = chk.behaviours("ConstraintsMC", split_cfg("Spec", consts, invs=invs), name=f"tabu {length} {refs}")
        rng.shuffle(hists)
        for kind in ("choice", "array", "instru", "dict"):
            sub = hists[: chk.scale(250, 4000)]
            jobs += [(length, kind, sub[i : i + 50]) for i in range(0, len(sub), 50)]
    traces = collect(chk, pmap(tabu_replay, jobs, timeout=60), "tabu list")
    chk.behaviours_replayed += len(traces)
    chk.judge("ConstraintsT", traces, "tabu list on model histories")
    good = next(t for t in traces if len(t["ev"]) > 3 and "res" in t["ev"][2])

    def corrupt(t: tp.Any) -> None:
        t["ev"][2]["res"] = not t["ev"][2]["res"]

    chk.selftest("ConstraintsT", good, corrupt, "tabu decision changed")
    kinds = ["half", "half_float", "ball", "never", "both", "instru", "inner"]
    names = [n for n in NAMES if n in ng.optimizers.registry]
    jobs2 = [(n, k, chk.seed * 1000 + s) for n in names for k in kinds
             if not (k == "never" and n in ("NGOpt", "Portfolio", "QODE", "MetaModel", "CMA", "DiagonalCMA"))  # 1000 trials at each level
             for s in range(chk.scale(3, 25))]
    traces = collect(chk, pmap(randomized, jobs2, timeout=60), "constrained histories")
    chk.judge("ConstraintsT", traces, "random constrained histories")
    traces = collect(chk, pmap(monotone, [(chk.seed * 1000 + s, s % 2 == 0) for s in range(chk.scale(100, 2000))]), "penalties")
    chk.judge("ConstraintsT", traces, "penalties")
    jobs3 = [(n, length, chk.seed * 100 + s) for n in ["DiscreteOnePlusOne", "RandomSearch", "PortfolioDiscreteOnePlusOne"]
             for length in (1, 2, 4) for s in range(chk.scale(4, 40))]
    traces = collect(chk, pmap(tabu_asks, jobs3), "tabu asks")
    chk.judge("ConstraintsT", traces, "asks with a tabu list")
