"""The parametrizations and optimizers on which the histories are executed."""
import json
import random
import typing as tp
from pathlib import Path

import numpy as np
import nevergrad as ng
from nevergrad.optimization import base as obase

PARAMS = ["array2", "bounded", "instru", "mixed", "choice"]


def not_too_low(x: tp.Any) -> tp.Any:
    return x[0] + 1.0  # float: >= 0 if satisfied


def param(name: str) -> tp.Any:
    if name == "constrained":
        out = ng.p.Array(init=np.array([0.5, 1.0]))
        out.register_cheap_constraint(not_too_low)
        return out
    if name == "array2":
        return ng.p.Array(shape=(2,))
    if name == "bounded":
        return ng.p.Array(init=np.array([0.5, 1.0, -1.0])).set_bounds(-2, 3).set_mutation(sigma=0.7)
    if name == "instru":
        return ng.p.Instrumentation(
            ng.p.Scalar(lower=-1, upper=3), ng.p.Choice([1, 2, 3]), k=ng.p.Log(lower=0.01, upper=10.0),
            i=ng.p.Scalar(lower=0, upper=6).set_integer_casting(),
        )
    if name == "mixed":
        return ng.p.Instrumentation(
            ng.p.Dict(a=ng.p.Scalar(), b=ng.p.Tuple(ng.p.Array(shape=(2,)), ng.p.Choice(["x", "y"]))),
            c=ng.p.Choice([ng.p.Scalar(lower=0, upper=1), 12]),
        )
    if name == "choice":
        return ng.p.Instrumentation(ng.p.TransitionChoice([1, 2, 3, 4]), ng.p.Choice(["a", "b", "c"]))
    raise ValueError(name)


def value(name: str, rng: random.Random) -> tp.Any:
    if name in ("array2", "constrained"):
        return [rng.choice([0.25, -1.5, 2.0, 0.5]), rng.choice([1.0, -0.75, 3.0])]
    if name == "bounded":
        return np.array([rng.choice([0.25, -1.5, 2.0]), rng.choice([1.0, -0.75]), rng.choice([2.5, 0.0])])
    if name == "instru":
        return ((rng.choice([0.5, 2.25, -0.5]), rng.choice([1, 2, 3])),
                dict(k=rng.choice([0.1, 1.0, 5.0]), i=rng.choice([1, 2, 4])))
    if name == "mixed":
        return ((dict(a=rng.choice([0.5, -2.0]), b=(np.array([rng.choice([1.0, 0.5]), -1.0]), rng.choice(["x", "y"]))),),
                dict(c=rng.choice([0.25, 0.75, 12])))
    if name == "choice":
        return ((rng.choice([1, 2, 3, 4]), rng.choice(["a", "b", "c"])), {})
    raise ValueError(name)


def refused(name: str, val: tp.Any) -> bool:
    """whether the value does not satisfy the constraints"""
    return name == "constrained" and not_too_low(val) < 0


def make(name: str, parametrization: tp.Any, budget: tp.Optional[int], num_workers: int) -> tp.Any:
    cls = ng.optimizers.registry[name] if isinstance(name, str) else name
    if cls.no_parallelization:
        num_workers = 1
    return cls(parametrization, budget=budget, num_workers=num_workers)


# optimizers which recommend the best of their records
_BY_RECORDS = {"OnePlusOne": 0, "RandomSearch": 0, "LHSSearch": 0, "HaltonSearch": 0, "DiscreteOnePlusOne": 0,
               "ScrHammersleySearch": 0, "DE": 1, "TwoPointsDE": 1, "QODE": 1}


def recommendation(name: str, opt: tp.Any) -> int:
    """index of the criterion which the recommended point minimizes (0: nothing is known)"""
    if name not in _BY_RECORDS:
        return 0
    return _BY_RECORDS[name] or (3 if opt.parametrization.function.deterministic else 2)


CORE = [
    "OnePlusOne", "DE", "TwoPointsDE", "QODE", "LhsDE", "NoisyDE", "PSO", "SQOPSO", "CMA", "DiagonalCMA", "FCMA", "TBPSA",
    "NaiveTBPSA", "EDA", "RandomSearch", "LHSSearch", "HaltonSearch", "ScrHammersleySearch", "DiscreteOnePlusOne",
    "PortfolioDiscreteOnePlusOne", "DiscreteLenglerOnePlusOne", "ParametrizationDE", "ES", "RecES", "RecMixES", "MixES",
    "RecMutDE", "MutDE", "NGOpt", "NGOpt10", "Portfolio", "ParaPortfolio", "ASCMADEthird", "SplitOptimizer", "NoisyOnePlusOne",
    "OptimisticNoisyOnePlusOne", "NoisyBandit", "SPSA", "CauchyOnePlusOne", "OnePointDE", "AlmostRotationInvariantDE", "CM",
    "EMNA", "NaiveIsoEMNA", "cGA", "MetaModel", "ChainCMAPowell", "RescaledCMA", "NelderMead", "Powell", "Cobyla", "SQP",
    "FastGADiscreteOnePlusOne", "RecombiningPortfolioDiscreteOnePlusOne", "DoubleFastGADiscreteOnePlusOne", "TripleCMA",
    "CMandAS2", "RotatedTwoPointsDE", "GeneticDE", "MemeticDE", "HSDE", "Zero", "StupidRandom", "RandomScaleRandomSearch",
    "OpoDE", "RLSOnePlusOne", "TripleOnePlusOne", "XLognormalDiscreteOnePlusOne", "SADiscreteLenglerOnePlusOneExp09",
    "AnisotropicAdaptiveDiscreteOnePlusOne", "DiscreteOnePlusOneT", "LognormalDiscreteOnePlusOne", "ORandomSearch",
    "QORandomSearch", "MetaTuneRecentering", "HyperOpt", "MultiscaleCMA", "SparseDoubleFastGADiscreteOnePlusOne",
]
CORE = [n for n in CORE if n in ng.optimizers.registry]

_TABLE = Path(__file__).with_name("zoo_table.json")


def table() -> tp.Dict[str, tp.Any]:
    """name -> [seconds, list of "param:mode" which are not supported]"""
    return json.loads(_TABLE.read_text()) if _TABLE.exists() else {}


def supported(name: str, pname: str, mode: str) -> bool:
    t = table_cached()
    return name in t and f"{pname}:{mode}" not in t[name][1]


_cache: tp.Dict[str, tp.Any] = {}


def table_cached() -> tp.Dict[str, tp.Any]:
    if not _cache:
        _cache.update(table())
    return _cache


def all_fast(chk: tp.Any) -> tp.List[str]:
    limit = 0.5 if chk.quick else 3.0
    t = table_cached()
    return sorted(n for n in ng.optimizers.registry if n in t and t[n][0] < limit)
