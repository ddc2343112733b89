"""C14: standardized data of parametrizations (spec/Layout.tla)"""
import copy
import random
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.parametrization import helpers

from common import Check, split_cfg
from util import collect, pmap


class Built:
    """A parametrization out of a tree of the model, with its leaves (by identifier)"""

    def __init__(self, tree: tp.Any) -> None:
        self.tree = copy.deepcopy(tree)
        self.ids: tp.List[str] = []  # type of each leaf
        self.param = self._build(self.tree)
        if not isinstance(self.param, ng.p.Parameter):
            self.param = ng.p.Tuple(self.param)
            self.tree = dict(t="tup", c=[self.tree])
        self.param.random_state.seed(12)

    def _new(self, node: tp.Any) -> None:
        self.ids.append(node["t"])
        node["id"] = len(self.ids)

    def _build(self, node: tp.Any) -> tp.Any:
        t = node["t"]
        if t == "arr":
            self._new(node)
            return ng.p.Array(init=np.zeros(node["d"])).set_mutation(sigma=float(node["s"]))
        if t == "cst":
            return "constant"
        if t == "tup":
            return ng.p.Tuple(*[self._build(x) for x in node["c"]])
        if t == "dict":
            return ng.p.Dict(**{f"k{k}": self._build(x) for k, x in zip(node["keys"], node["c"])})
        if t == "inst":
            a = [self._build(x) for x in node["a"]]
            return ng.p.Instrumentation(*a, **{f"k{k}": self._build(x) for k, x in zip(node["keys"], node["c"])})
        if t in ("cho", "tra"):
            self._new(node)
            rep = None if node["r"] == 1 else node["r"]
            options = [self._build(x) for x in node["c"]]
            if t == "cho":
                return ng.p.Choice(options, repetitions=rep, deterministic=True)
            return ng.p.TransitionChoice(options, repetitions=rep)
        raise ValueError(t)

    def leaves(self, param: tp.Any) -> tp.List[tp.Any]:
        """sub-parameter holding each leaf, by identifier"""
        out: tp.List[tp.Any] = [None] * len(self.ids)

        def walk(node: tp.Any, p: tp.Any) -> None:
            t = node["t"]
            if t in ("arr", "cho", "tra"):
                out[node["id"] - 1] = p
            if t in ("tup", "cho", "tra"):
                for i, x in enumerate(node["c"]):
                    walk(x, (p if t == "tup" else p.choices)[i])
            elif t == "dict":
                for k, x in zip(node["keys"], node["c"]):
                    walk(x, p[f"k{k}"])
            elif t == "inst":
                for i, x in enumerate(node["a"]):
                    walk(x, p[0][i])
                for k, x in zip(node["keys"], node["c"]):
                    walk(x, p[1][f"k{k}"])

        walk(self.tree, param)
        return out

    def values(self, param: tp.Any) -> tp.List[tp.List[int]]:
        out = []
        for t, p in zip(self.ids, self.leaves(param)):
            v = p.value if t == "arr" else p.indices.value
            out.append([_int(x) for x in np.asarray(v).ravel()])
        return out

    def weights(self, param: tp.Any) -> tp.List[tp.List[int]]:
        """data of the leaves with respect to the origin"""
        origin = self.leaves(self.origin)
        out = []
        for t, p, o in zip(self.ids, self.leaves(param), origin):
            out.append([] if t != "cho" else [_int(x) for x in p.indices.get_standardized_data(reference=o.indices)])
        return out

    def flat(self, param: tp.Any) -> tp.List[int]:
        def walk(n: tp.Any, v: tp.Any) -> tp.List[int]:
            t = n["t"]
            if t == "arr":
                return [_int(x) for x in np.asarray(v).ravel()]
            if t == "cst":
                return [7777 if v == "constant" else 0]
            if t in ("tup", "seq"):
                assert isinstance(v, tuple) and len(v) == len(n["c"])
                return [9001] + [y for c, x in zip(n["c"], v) for y in walk(c, x)] + [9002]
            if t == "dict":
                assert set(v) == {f"k{k}" for k in n["keys"]}
                return [9001] + [y for k, c in sorted(zip(n["keys"], n["c"]), key=lambda x: x[0]) for y in walk(c, v[f"k{k}"])] + [9002]
            if t == "inst":
                return [9001] + walk(dict(t="tup", c=n["a"]), v[0]) + walk(dict(t="dict", keys=n["keys"], c=n["c"]), v[1]) + [9002]
            raise NotImplementedError(t)

        return walk(_chosen(self.tree, {i + 1: x for i, x in enumerate(self.values(param))}), param.value)

    @property
    def origin(self) -> tp.Any:
        return self.param


def _int(x: float) -> int:
    r = int(round(float(x)))
    return r if abs(r - x) < 1e-7 else 10**8 + r % 1000  # not an integer: matches nothing


def _chosen(n: tp.Any, vals: tp.Any) -> tp.Any:
    """tree of the value: the choices are replaced by the selected options (the type of the value is not enough to know it)"""
    if n["t"] in ("cho", "tra"):
        picked = [_chosen(n["c"][k], vals) for k in vals[n["id"]]]
        return picked[0] if n["r"] == 1 else dict(t="seq", c=picked)
    out = dict(n)
    for name in "ac":
        if name in n:
            out[name] = [_chosen(x, vals) for x in n[name]]
    return out


def observe(tree: tp.Any, seed: int, events: int = 6) -> tp.Dict[str, tp.Any]:
    rng = random.Random(f"layout{seed}")
    b = Built(tree)
    root = b.param
    ids = {}
    for i, (t, p) in enumerate(zip(b.ids, b.leaves(root))):
        ids[id(p if t == "arr" else p.indices)] = i + 1
    zero = root.get_standardized_data(reference=root)
    leaves = [[ids.get(id(x), 0), int(x.dimension)] for x in helpers.list_data(root)]
    ev: tp.List[tp.Any] = [dict(k="dim", dim=int(root.dimension), size=int(zero.size), zero=[_int(x) for x in zero], leaves=leaves)]
    dim = int(root.dimension)
    pool = [root]
    for _ in range(events):
        ref = rng.choice(pool)
        if rng.random() < 0.6 or len(pool) < 2:
            target = rng.choice(pool[1:] + [ref]).spawn_child() if rng.random() < 0.5 else ref.spawn_child()
            if rng.random() < 0.3:
                target.mutate()  # the previous content does not count
            if dim and rng.random() < 0.4:  # single coordinate
                data = np.zeros(dim)
                data[rng.randrange(dim)] = rng.randint(-3, 3)
            else:
                data = np.array([rng.randint(-3, 3) for _ in range(dim)], dtype=float)
            before = b.values(ref)
            wref = b.weights(ref)
            target.set_standardized_data(data, reference=ref)
            out = b.values(target)
            back = target.get_standardized_data(reference=ref)
            ev.append(dict(k="set", ref=before, wref=wref, data=[int(x) for x in data], out=out, ref2=b.values(ref), back=[_int(x) for x in back], value=b.flat(target)))
            pool.append(target)
        else:
            val = rng.choice(pool)
            v, r = b.values(val), b.values(ref)
            data = val.get_standardized_data(reference=ref)
            other = rng.choice(pool).spawn_child()
            other.set_standardized_data(data, reference=ref)
            # differences which are not a multiple of sigma are not integers: see _int
            if any((x - y) % leaf["s"] for leaf, a, c in zip(_nodes(b.tree), v, r) if leaf["t"] == "arr" for x, y in zip(a, c)):
                continue
            ev.append(dict(k="get", ref=r, val=v, data=[_int(x) for x in data], ref2=b.values(ref), val2=b.values(val), round=b.values(other), value=b.flat(val)))
    return dict(cfg=dict(tree=b.tree), ev=ev, info=dict(seed=seed))


def _nodes(tree: tp.Any) -> tp.List[tp.Any]:
    out: tp.List[tp.Any] = []

    def walk(n: tp.Any) -> None:
        if "id" in n:
            out.append(n)
        for x in n.get("a", []) + n.get("c", []):
            walk(x)

    walk(tree)
    return sorted(out, key=lambda n: n["id"])


def replay(job: tp.Any) -> tp.Any:
    seed, trees = job
    warnings.simplefilter("ignore")
    return [observe(t, f"{seed}{i}") for i, t in enumerate(trees)]  # type: ignore


def random_tree(rng: random.Random, depth: int) -> tp.Any:
    if depth == 0 or rng.random() < 0.15:
        return rng.choice([dict(t="arr", id=0, d=rng.randint(1, 3), s=rng.choice([1, 2])), dict(t="arr", id=0, d=1, s=1), dict(t="cst")])
    t = rng.choice(["tup", "dict", "inst", "cho", "tra"])
    wide = rng.random() < 0.12  # more than 10 elements
    c = [random_tree(rng, 0 if wide else depth - 1) for _ in range(rng.randint(11, 13) if wide else rng.randint(1, 4))]
    keys = rng.sample(range(10, 99), len(c))
    if t == "tup":
        return dict(t=t, c=c)
    if t == "dict":
        return dict(t=t, keys=keys, c=c)
    if t == "inst":
        n = rng.randint(0, len(c))
        return dict(t=t, a=c[:n], keys=keys[n:], c=c[n:])
    return dict(t=t, id=0, r=rng.choice([1, 1, 2, 3]), c=c)


def randomized(job: tp.Any) -> tp.Any:
    warnings.simplefilter("ignore")
    rng = random.Random(f"tree{job}")
    tree = random_tree(rng, rng.choice([2, 3, 4]))
    if tree["t"] in ("cst", "arr"):
        tree = dict(t="tup", c=[tree])
    return observe(tree, job, events=10)


def run_C14(chk: Check) -> None:
    rng = random.Random(chk.seed)
    trees = chk.behaviours("LayoutMC", split_cfg("Spec", dict(Depth=2, Full=not chk.quick, EMIT=True), invs=["InvDimension", "InvPartition", "InvRoundTrip"]))
    rng.shuffle(trees)
    trees = trees[: chk.scale(4000, 100000)]
    jobs = [(chk.seed * 1000 + i, trees[i : i + 100]) for i in range(0, len(trees), 100)]
    traces = collect(chk, pmap(replay, jobs), "parametrizations of the model")
    chk.behaviours_replayed += len(traces)
    chk.judge("LayoutT", traces, "parametrizations of the model")
    good = next(t for t in traces if t["cfg"]["tree"]["t"] == "dict" and any(x["k"] == "set" and len(x["data"]) > 2 for x in t["ev"]))

    def corrupt(t: tp.Any) -> None:
        e = next(x for x in t["ev"] if x["k"] == "set" and len(x["data"]) > 2)
        e["data"][0] += 1

    chk.selftest("LayoutT", good, corrupt, "one coordinate changed")
    jobs2 = [chk.seed * 100000 + s for s in range(chk.scale(1500, 20000))]
    traces = collect(chk, pmap(randomized, jobs2, chunksize=20), "random parametrizations")
    chk.judge("LayoutT", traces, "random parametrizations")
