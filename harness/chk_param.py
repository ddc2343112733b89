"""C13: instances of parametrizations (spec/Param.tla)"""
import random
import typing as tp
import warnings

import numpy as np
import nevergrad as ng

from common import Check, split_cfg
from util import Tokens, collect, freeze_value, pmap


class Kind(tp.NamedTuple):
    build: tp.Callable[[], tp.Any]
    values: tp.List[tp.Any]  # for each leaf, the values for the codes 0, 1, 2
    join: tp.Callable[[tp.List[tp.Any]], tp.Any]  # value of the parameter from the values of its leaves
    split: tp.Callable[[tp.Any], tp.List[tp.Any]]
    leaf: tp.Callable[[tp.Any], tp.Any]  # sub-parameter of the first leaf
    stoch: tp.List[bool]
    finite: bool = False


def single(build: tp.Any, values: tp.List[tp.Any], stoch: bool = False, finite: bool = False) -> Kind:
    return Kind(build, [values], lambda v: v[0], lambda v: [v], lambda p: p, [stoch], finite)


def arr(*x: float) -> np.ndarray:
    return np.array(x, dtype=float)


A3 = [arr(0, 0), arr(1, 2), arr(-1, 0.5)]
S3 = [0.0, 1.0, -2.5]
B3 = [arr(0, 0), arr(1, 2), arr(-1.5, 0.5)]


def _noninst(*args: tp.Any) -> tp.Any:
    return args


KINDS: tp.Dict[str, Kind] = {
    "array": single(lambda: ng.p.Array(shape=(2,)), A3),
    "array_sigma": single(lambda: ng.p.Array(shape=(2,), mutable_sigma=True), A3),
    "scalar": single(lambda: ng.p.Scalar(), S3),
    "bounded": single(lambda: ng.p.Scalar(lower=-4, upper=4), S3),
    "log": single(lambda: ng.p.Log(lower=1, upper=1024), [1.0, 4.0, 32.0]),
    "integer": single(lambda: ng.p.Scalar(lower=0, upper=9).set_integer_casting(), [0, 3, 8]),
    "clipping": single(lambda: ng.p.Array(shape=(2,)).set_bounds(-4, 4, method="clipping"), B3),
    "tanh": single(lambda: ng.p.Array(shape=(2,)).set_bounds(-4, 4, method="tanh"), B3),
    "arctan": single(lambda: ng.p.Array(shape=(2,)).set_bounds(-4, 4, method="arctan"), B3),
    "gaussian": single(lambda: ng.p.Array(shape=(2,)).set_bounds(-4, 4, method="gaussian"), B3),
    "upper": single(lambda: ng.p.Array(shape=(2,)).set_bounds(None, 4, method="clipping"), B3),
    "constraint": single(lambda: ng.p.Array(shape=(2,)).set_bounds(-4, 4, method="constraint"), B3),
    "affine": single(lambda: 2 * ng.p.Array(shape=(2,)) + 1, B3),
    "angles": single(lambda: ng.p.Angles(shape=(2,)), B3),
    "crossover": single(lambda: ng.ops.mutations.Crossover(axis=0)(ng.p.Array(shape=(2,))), A3),
    "translation": single(lambda: ng.ops.mutations.Translation(axis=0)(ng.p.Array(shape=(2,))), A3),
    "choice": single(lambda: ng.p.Choice(["a", "b", "c"]), ["a", "b", "c"], True, True),
    "choice_det": single(lambda: ng.p.Choice(["a", "b", "c"], deterministic=True), ["a", "b", "c"], False, True),
    "choice_rep": single(lambda: ng.p.Choice(["a", "b", "c"], repetitions=2), [("a", "b"), ("c", "c"), ("b", "a")], True),
    "transition": single(lambda: ng.p.TransitionChoice(["a", "b", "c"]), ["a", "b", "c"], False, True),
    "transition_rep": single(lambda: ng.p.TransitionChoice(["a", "b", "c"], repetitions=2), [("a", "b"), ("c", "c"), ("b", "a")]),
    "unordered": single(lambda: ng.p.TransitionChoice(["a", "b", "c"], ordered=False), ["a", "b", "c"], False, True),
    "choice_param": single(lambda: ng.p.Choice([ng.p.Scalar(), "x"], deterministic=True), ["x", 1.0, 2.5]),
    "choice_nested": single(lambda: ng.p.TransitionChoice(["x", ng.p.Dict(u=ng.p.Scalar(), v=3)]), ["x", dict(u=0.5, v=3), dict(u=2.0, v=3)]),
    "tuple": Kind(lambda: ng.p.Tuple(ng.p.Array(shape=(2,)), ng.p.Choice(["a", "b", "c"])), [A3, ["a", "b", "c"]],
                  tuple, list, lambda p: p[0], [False, True]),
    "dict": Kind(lambda: ng.p.Dict(x=ng.p.Scalar(), y=ng.p.Dict(z=ng.p.Array(shape=(2,)), c=ng.p.Choice(["a", "b", "c"]), k=12)),
                 [S3, A3, ["a", "b", "c"]], lambda v: dict(x=v[0], y=dict(z=v[1], c=v[2], k=12)),
                 lambda v: [v["x"], v["y"]["z"], v["y"]["c"]], lambda p: p["x"], [False, False, True]),
    "instrumentation": Kind(lambda: ng.p.Instrumentation(ng.p.Scalar(lower=-4, upper=4), "cst", k=ng.p.Array(shape=(2,)),
                                                         t=ng.p.TransitionChoice(["a", "b", "c"])),
                            [S3, A3, ["a", "b", "c"]], lambda v: ((v[0], "cst"), dict(k=v[1], t=v[2])),
                            lambda v: [v[0][0], v[1]["k"], v[1]["t"]], lambda p: p[0][0], [False, False, False]),
    "randint": single(lambda: ng.ops.Int(deterministic=False)(ng.p.Array(shape=(2,))), [arr(0, 0), arr(1, 2), arr(-1, 3)], True),
}


class World:
    """Instances of a parametrization, and their observation"""

    def __init__(self, kind: str) -> None:
        self.k = KINDS[kind]
        self.name = kind
        self.objs: tp.List[tp.Any] = []
        self.tokens: tp.List[Tokens] = [Tokens() for _ in self.k.values]
        for t, vals in zip(self.tokens, self.k.values):
            for v in vals:
                t(freeze_value(v))
        self.uids = Tokens()
        self.hashes = Tokens()
        self.states: tp.List[tp.Any] = []
        p = self.k.build()
        p.random_state.seed(12)
        p.value = self.value(0)
        self.objs.append(p)
        self.states.append(p.random_state)
        self.origin = p.heritage["lineage"]  # can be the uid of an intermediate object

    def value(self, code: int) -> tp.Any:
        return self.k.join([v[code] for v in self.k.values])

    def observe(self) -> tp.List[tp.Any]:
        out = []
        ids = {o.uid: i + 1 for i, o in reversed(list(enumerate(self.objs)))}
        ids.setdefault(self.origin, 1)
        for o in self.objs:
            v = [t(freeze_value(x)) - 1 for t, x in zip(self.tokens, self.k.split(o.value))]
            leaf = self.k.leaf(o)
            par = 0 if not o.parents_uids else ids.get(o.parents_uids[0], -1) if len(o.parents_uids) == 1 else -2
            try:
                h = self.hashes(o.get_value_hash())
            except ng.errors.UnsupportedParameterOperationError:
                h = 0
            out.append(dict(v=v, gen=o.generation, sgen=leaf.generation, par=par, lin=ids.get(o.heritage["lineage"], -1),
                            loss=o.loss is not None, tag=o.heritage.get("tag", 0), rs=self.rs(o.random_state), srs=self.rs(leaf.random_state),
                            uid=self.uids(o.uid), h=h))
        return out

    def rs(self, r: tp.Any) -> int:
        return next((i + 1 for i, x in enumerate(self.states) if x is r), -1)

    def step(self, e: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
        o = self.objs[e["o"] - 1]
        k = e["k"]
        err, what = False, ""
        e = dict(e)
        try:
            if k in ("copy", "spawn", "sample"):
                new = getattr(o, "spawn_child" if k == "spawn" else k)()
                self.objs.append(new)
            elif k == "spawnv":
                self.objs.append(o.spawn_child(new_value=self.value(e["v"])))
            elif k == "set":
                o.value = self.value(e["v"])
            elif k == "subset":
                self.k.leaf(o).value = self.k.values[0][e["v"]]
            elif k == "setstd":
                ref = self.objs[e["r"] - 1]
                data = ref.spawn_child(new_value=self.value(e["v"])).get_standardized_data(reference=ref)
                o.set_standardized_data(data, reference=ref)
            elif k == "mutate":
                o.mutate()
            elif k == "recombine":
                o.recombine(self.objs[e["r"] - 1])
            elif k == "freeze":
                o.freeze()
            elif k == "mark":
                o.loss = 12.0
                o.heritage["tag"] = e["v"]
            elif k == "seed":
                state = np.random.RandomState(e["v"])
                self.states.append(state)
                e["v"] = len(self.states)
                o.random_state = state
        except RuntimeError as ex:  # modification of a frozen parameter
            err, what = True, repr(ex)[:100]
        return dict(e, err=err, what=what, obs=self.observe())


def execute(kind: str, hist: tp.Sequence[tp.Dict[str, tp.Any]]) -> tp.Dict[str, tp.Any]:
    w = World(kind)
    v0 = w.observe()[0]["v"]
    ev = [w.step(e) for e in hist]
    return dict(cfg=dict(stoch=w.k.stoch, finite=w.k.finite, v0=v0), ev=ev, info=dict(kind=kind))


def replay(job: tp.Any) -> tp.Any:
    kind, hists = job
    warnings.simplefilter("ignore")
    return [execute(kind, h) for h in hists]


def randomized(job: tp.Any) -> tp.Any:
    kind, seed = job
    warnings.simplefilter("ignore")
    rng = random.Random(f"param{job}")
    n, hist = 1, []
    for _ in range(25):
        k = rng.choice(["copy", "spawn", "sample", "spawnv", "set", "subset", "setstd", "recombine", "mutate", "mutate", "freeze", "mark", "seed"])
        if k in ("copy", "spawn", "sample", "spawnv"):
            if n >= 6:
                continue
            n += 1
            o = rng.randint(1, n - 1)
        else:
            o = rng.randint(1, n)
        e = dict(k=k, o=o)
        if k in ("set", "subset", "spawnv", "mark"):
            e["v"] = rng.randint(0, 2)
        if k == "seed":
            e["v"] = rng.randint(0, 100)
        if k in ("setstd", "recombine"):
            e["r"] = rng.randint(1, n)
            e["v"] = rng.randint(0, 2)
        hist.append(e)
    return execute(kind, hist)


def run_C13(chk: Check) -> None:
    rng = random.Random(chk.seed)
    hists = chk.behaviours("ParamMC", split_cfg("Spec", dict(MaxLen=chk.scale(3, 4), MaxObjs=3, EMIT=True), invs=["InvGeneration"],
                                                props=["ActFrozen", "ActFrame", "ActCreation"]))
    rng.shuffle(hists)
    jobs = []
    per = chk.scale(400, 6000)
    for n, kind in enumerate(KINDS):
        sub = [hists[(n * per + i) % len(hists)] for i in range(per)]
        jobs += [(kind, sub[i : i + 100]) for i in range(0, len(sub), 100)]
    traces = collect(chk, pmap(replay, jobs), "model histories")
    chk.behaviours_replayed += len(traces)
    chk.judge("ParamT", traces, "model histories")
    good = next(t for t in traces if t["info"]["kind"] == "dict" and len(t["ev"][-1]["obs"]) == 3)

    def corrupt(t: tp.Any) -> None:
        t["ev"][-1]["obs"][0]["gen"] += 1

    def corrupt2(t: tp.Any) -> None:
        t["ev"][-1]["obs"][1]["v"][0] += 1

    chk.selftest("ParamT", good, corrupt, "generation changed")
    chk.selftest("ParamT", good, corrupt2, "value changed")
    jobs2 = [(k, chk.seed * 1000 + s) for k in KINDS for s in range(chk.scale(20, 400))]
    traces = collect(chk, pmap(randomized, jobs2), "random histories")
    chk.judge("ParamT", traces, "random histories")
