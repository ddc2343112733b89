"""C15: operations on the values of parameters, and domains (spec/Layers.tla)"""
import copy
import math
import random
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.parametrization import _datalayers

from common import Check, split_cfg
from util import collect, pmap

U = 64
NONE = -999999999


def units(v: tp.Any) -> tp.List[int]:
    out = []
    for x in np.asarray(v, dtype=float).ravel():
        y = float(x) * U
        out.append(int(round(y)) if math.isfinite(y) and abs(y - round(y)) < 1e-6 and abs(y) < 1e9 else 999999999)
    return out


class Stack:
    def __init__(self, lanes: int, scalar: bool, variant: int) -> None:
        self.scalar = scalar
        self.p: tp.Any = ng.p.Scalar() if scalar else ng.p.Array(shape=(lanes,))
        self.ref = self.p.copy()
        self.legacy = False
        self.variant = variant

    def value(self, v: tp.Sequence[int]) -> tp.Any:
        return v[0] / U if self.scalar else np.array(v, dtype=float) / U

    def push(self, y: tp.Dict[str, tp.Any]) -> None:
        op, p, alt = y["op"], self.p, self.variant % 2
        if op == "add":
            self.p = p - (-y["v"] / U) if alt else (y["v"] / U) + p
        elif op == "mul":
            x = y["n"] / y["d"]
            self.p = -p if x == -1 and alt else p / (1 / x) if alt else x * p
        elif op == "mod":
            self.p = p % (y["v"] / U)
        else:
            lo, hi = (None if b == NONE else b / U for b in (y["lo"], y["hi"]))
            method = "clipping" if op == "clip" else "bouncing"
            if not self.legacy and alt:
                q = p.copy()
                q.set_bounds(lo, hi, method=method)
                self.legacy = True
            else:
                q = _datalayers.Bound(lo, hi, method=method)(p)
            self.p = q

    def step(self, e: tp.Dict[str, tp.Any]) -> tp.Dict[str, tp.Any]:
        e = dict(e, ok=True)
        k = e["k"]
        try:
            if k == "push":
                self.push(e["y"])
                return e
            if k == "int":
                if self.variant % 3:
                    self.p.set_integer_casting()
                else:
                    self.p = ng.ops.Int()(self.p)
                return e
            if k == "read":
                e["val"] = units(self.p.value)
                self.ref = self.p.copy()
            elif k == "set":
                if self.variant % 4 == 3:
                    self.p = self.p.spawn_child(new_value=self.value(e["v"]))
                else:
                    self.p.value = self.value(e["v"])
            elif k == "std":
                if self.variant % 5 == 4:
                    self.p = self.p.spawn_child()
                self.p.set_standardized_data(np.array(e["d"], dtype=float) / U, reference=self.ref)
                if self.variant % 7 < 3:  # written back without any explicit reading
                    e["data"] = units(self.p.get_standardized_data(reference=self.ref))
        except ValueError as ex:
            return dict(e, ok=False, what=repr(ex)[:80])
        if self.variant % 11 == 5:
            self.p = self.p.copy()
        e["val"] = units(self.p.value)
        e["data"] = e.get("data", units(self.p.get_standardized_data(reference=self.ref)))
        e["val2"] = units(self.p.value)
        return e


def execute(hist: tp.Sequence[tp.Dict[str, tp.Any]], lanes: int, variant: int) -> tp.Dict[str, tp.Any]:
    s = Stack(lanes, lanes == 1 and variant % 3 != 1, variant)
    ev = []
    for e in hist:
        e = copy.deepcopy(e)
        for f in "vd":
            if f in e and len(e[f]) == 1:
                e[f] = e[f] * lanes
        ev.append(s.step(e))
        if not ev[-1]["ok"]:
            break
    return dict(cfg=dict(root=[0] * lanes), ev=ev, info=dict(variant=variant))


def replay(job: tp.Any) -> tp.Any:
    seed, hists = job
    warnings.simplefilter("ignore")
    rng = random.Random(f"layers{seed}")
    return [execute(h, rng.choice([1, 1, 2]), rng.randint(0, 10000)) for h in hists]


def _y(**kw: tp.Any) -> tp.Dict[str, tp.Any]:
    return dict(dict(v=0, n=1, d=1, lo=NONE, hi=NONE), **kw)


def randomized(job: tp.Any) -> tp.Any:
    warnings.simplefilter("ignore")
    rng = random.Random(f"layersr{job}")
    lanes = rng.choice([1, 2, 3])
    hist: tp.List[tp.Any] = []
    halves, bounded, casted = 0, False, False
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["add", "mul", "mul", "mod", "clip", "bounce", "half"])
        if op == "add":
            y = _y(op="add", v=rng.randint(-20, 20) * 16)
        elif op == "mul":
            y = _y(op="mul", n=rng.choice([-1, 2, -2, 4]))
            halves += 1 if abs(y["n"]) > 1 else 0
            halves += 1 if abs(y["n"]) > 2 else 0
        elif op == "half":
            y = _y(op="mul", n=rng.choice([-1, 1]), d=2)
            halves += 1
        elif op == "mod":
            y = _y(op="mod", v=rng.randint(1, 5) * 64)
            bounded = True
        else:
            lo = rng.randint(-12, 4) * 16
            y = _y(op=op, lo=lo, hi=lo + rng.randint(1, 20) * 16)
            if op == "clip" and not bounded and rng.random() < 0.3:
                y[rng.choice(["lo", "hi"])] = NONE
            bounded = True
        if y["op"] in ("clip", "bounce") and any(h["k"] == "push" and h["y"]["op"] == "mod" for h in hist) and sum(
                h["k"] == "push" and h["y"]["op"] in ("clip", "bounce", "mod") for h in hist) > 1:
            continue  # bounds over a modulo of bounded values: writing back can be refused (see DESIGN.md)
        if halves > 2:
            break
        hist.append(dict(k="push", y=y))
        if not casted and rng.random() < 0.2:
            casted = True
            hist.append(dict(k="int"))
    hist.append(dict(k="read"))
    for _ in range(12):
        if rng.random() < 0.4:
            x = rng.choice([1, 4, 16])
            hist.append(dict(k="set", v=[rng.randint(-x, x) * 32 for _ in range(lanes)]))
        else:
            x = rng.choice([4, 40, 4000])
            hist.append(dict(k="std", d=[rng.randint(-x, x) * 16 for _ in range(lanes)]))
    # a refused assignment ends the history: keep going with another parameter
    s = Stack(lanes, lanes == 1 and rng.random() < 0.6, rng.randint(0, 10000))
    ev = []
    for e in hist:
        if e["k"] == "set":
            q = copy.deepcopy(s)
            r = q.step(e)
            ev.append(r)
            if r["ok"]:
                s = q
        else:
            ev.append(s.step(e))
            if not ev[-1]["ok"]:
                break
    return dict(cfg=dict(root=[0] * lanes), ev=ev, info=dict(job=job))


# -- domains -----------------------------------------------------------------
MICRO = 1000000


def micro(x: float, up: bool) -> int:
    """millionths, rounded towards the outside only beyond the float precision"""
    y = float(x) * MICRO
    if not math.isfinite(y) or abs(y) > 1.9e9:
        return 1900000000 if y > 0 else -1900000000
    y = round(y, 3)  # floats are computed up to a relative precision
    return int(math.ceil(y)) if up else int(math.floor(y))


def inside(v: tp.Any, lo: tp.Any, hi: tp.Any, integer: bool = False, con: int = -1) -> tp.Dict[str, tp.Any]:
    flat = np.asarray(v).ravel()
    size = flat.size

    def bound(b: tp.Any, up: bool) -> tp.List[tp.Any]:
        if b is None:
            return [[]] * size
        return [[micro(x, up)] for x in np.broadcast_to(np.asarray(b, dtype=float), np.shape(v)).ravel()]

    lows, highs = bound(lo, False), bound(hi, True)
    vals = [(micro(x, True) if h and micro(x, True) > h[0] else micro(x, False)) if np.isfinite(x) else 2000000000 for x, h in zip(flat, highs)]
    ok = all((lo is None or x >= l) and (hi is None or x <= h) for x, l, h in
             zip(flat, np.broadcast_to(-math.inf if lo is None else lo, np.shape(v)).ravel(), np.broadcast_to(math.inf if hi is None else hi, np.shape(v)).ravel()))
    return dict(k="in", v=vals, lo=lows, hi=highs, int=integer, con=con, inside=bool(ok))


def domains(job: tp.Any) -> tp.Any:
    warnings.simplefilter("ignore")
    rng = random.Random(f"domain{job}")
    np.random.seed(rng.randint(0, 2**31))
    kind = rng.choice(["array", "array", "bounds_array", "scalar", "log", "log", "upper", "angles", "choice", "transition", "constraint", "affine", "intaffine"])
    lo: tp.Any = rng.choice([0, -1, 0.1, -0.3, -50, 3])
    hi: tp.Any = lo + rng.choice([1, 0.2, 2.5, 10, 100])
    method = rng.choice(["bouncing", "clipping", "arctan", "tanh", "gaussian"])
    integer = False
    n = 0
    build: tp.Any
    if kind == "array":
        shape = rng.choice([(1,), (3,), (2, 2)])
        p: tp.Any = ng.p.Array(init=np.full(shape, (lo + hi) / 2)).set_bounds(lo, hi, method=method, full_range_sampling=rng.choice([None, True, False]))
    elif kind == "bounds_array":
        lo = np.array([lo, lo - 1.0, lo])
        hi = np.array([hi, hi, hi + 2])
        p = ng.p.Array(init=(lo + hi) / 2, **(dict(lower=lo, upper=hi) if rng.random() < 0.5 else {}))
        if not any(isinstance(x, _datalayers.BoundLayer) for x in p._layers):
            p.set_bounds(lo, hi, method=rng.choice(["bouncing", "clipping"]))
    elif kind == "scalar":
        p = ng.p.Scalar(lower=lo, upper=hi)
        integer = rng.random() < 0.5 and hi - lo >= 1
        if rng.random() < 0.4:
            p.set_mutation(sigma=ng.p.Log(init=1.0, exponent=3.0))
    elif kind == "log":
        lo, hi = rng.choice([(0.1, 0.3), (1, 1024), (0.001, 1), (3, 7.7), (1e-6, 10), (2, 2000)])
        p = rng.choice([lambda: ng.p.Log(lower=lo, upper=hi), lambda: ng.p.Log(init=(lo + hi) / 2, lower=lo, upper=hi, exponent=2.0)])()
        integer = rng.random() < 0.4 and hi - lo >= 1
    elif kind == "upper":
        x = rng.random() < 0.5
        p = ng.p.Scalar(init=(lo + hi) / 2, **(dict(lower=lo) if x else dict(upper=hi)))
        if rng.random() < 0.5:
            p = ng.p.Array(init=[(lo + hi) / 2] * 2).set_bounds(lo if x else None, None if x else hi, method="clipping")
        lo, hi = (lo, None) if x else (None, hi)
    elif kind == "angles":
        deg = rng.random() < 0.5
        p = ng.p.Angles(shape=(2,), deg=deg, bound_method=rng.choice([None, "clipping", "arctan"]))
        hi = 180 if deg else math.pi
        lo = -hi
    elif kind in ("choice", "transition"):
        n = rng.randint(1, 5)
        rep = rng.choice([None, 1, 3])
        opts = [f"o{i}" for i in range(n)]
        p = (ng.p.Choice(opts, repetitions=rep, deterministic=rng.random() < 0.5) if kind == "choice"
             else ng.p.TransitionChoice(opts, repetitions=rep, ordered=rng.random() < 0.7 or rep is not None))
    elif kind == "constraint":
        p = ng.p.Array(init=np.full((2,), (lo + hi) / 2)).set_bounds(lo, hi, method="constraint")
    else:
        m, a = rng.choice([-1, 2, -0.5, 3]), rng.choice([0, 1.5, -4])
        p = m * ng.p.Array(init=np.full((2,), (lo + hi) / 2)).set_bounds(lo, hi, method=method) + a
        lo, hi = sorted([m * lo + a, m * hi + a])
        integer = kind == "intaffine" and hi - lo >= 1
    if integer:
        p.set_integer_casting()
    p.random_state.seed(rng.randint(0, 10000))
    ev: tp.List[tp.Any] = []

    def see(q: tp.Any) -> None:
        v = q.value
        if n:
            vals = v if isinstance(v, tuple) else (v,)
            ev.append(dict(k="oneof", v=[opts.index(x) + 1 if x in opts else 0 for x in vals], n=n))
        elif kind == "constraint":
            ev.append(dict(inside(v, None, None, con=int(q.satisfies_constraints())), inside=bool(np.all(v >= lo) and np.all(v <= hi))))
        else:
            ev.append(inside(v, lo, hi, integer))

    fam = [p]
    see(p)
    if not n and kind != "constraint" and lo is not None and hi is not None:  # the whole domain is reachable
        for x in (lo, hi, (np.asarray(lo) + np.asarray(hi)) / 2):
            if kind == "angles" or method in ("arctan", "tanh", "gaussian") and x is not lo and x is not hi:
                continue
            if integer and np.any(np.asarray(x, dtype=float) != np.round(x)):
                continue
            q = p.copy()
            val = float(x) if isinstance(q, ng.p.Scalar) else np.broadcast_to(np.asarray(x, dtype=float), q.value.shape).copy()
            try:
                with np.errstate(all="ignore"):
                    q.value = val
                    got = q.value
                ok = bool(np.all(np.abs(np.asarray(got, dtype=float) - np.asarray(val)) <= 1e-6 * (1 + np.abs(val))))
            except ValueError:  # float precision at the bounds
                ok = kind in ("log", "affine", "intaffine")
            ev.append(dict(k="same", eq=ok))
    for _ in range(25):
        q = rng.choice(fam)
        op = rng.choice(["mutate", "mutate", "sample", "recombine", "std", "std", "child", "copy"])
        try:
            if op == "mutate":
                q = q.spawn_child()
                q.mutate()
            elif op == "sample":
                q = q.sample()
            elif op == "recombine":
                q = q.spawn_child()
                q.recombine(rng.choice(fam))
            elif op == "std":
                d = np.array([rng.gauss(0, rng.choice([0.1, 1, 5, 30])) for _ in range(p.dimension)])
                if kind == "angles" and rng.random() < 0.2:
                    d[:] = 0
                q = q.spawn_child()
                q.set_standardized_data(d, reference=rng.choice(fam[:1] + [q]))
            elif op == "child":
                q = q.spawn_child()
            else:
                q = q.copy()
        except OverflowError:
            continue
        see(q)
        if np.all(np.isfinite(q.get_standardized_data(reference=p))) if not n else True:
            fam.append(q)
    return dict(cfg=dict(root=[0]), ev=ev, info=dict(job=job, kind=kind, name=p.name))


def run_C15(chk: Check) -> None:
    rng = random.Random(chk.seed)
    invs = ["InvClosure", "InvStable", "InvRoundTrip", "InvSettable", "InvInteger"]
    hists = chk.behaviours("LayersMC", split_cfg("Spec", dict(Depth=chk.scale(2, 3), MaxOps=2, Rich=not chk.quick, EMIT=True), invs=invs))
    if not chk.quick:
        hists = rng.sample(hists, min(len(hists), 80000))
    rng.shuffle(hists)
    hists = hists[: chk.scale(12000, 80000)]
    jobs = [(chk.seed * 1000 + i, hists[i : i + 200]) for i in range(0, len(hists), 200)]
    traces = collect(chk, pmap(replay, jobs), "stacks of the model")
    chk.behaviours_replayed += len(traces)
    chk.judge("LayersT", traces, "stacks of the model")
    good = next(t for t in traces if t["ev"][-1]["k"] == "std" and t["ev"][-1]["ok"])

    def corrupt(t: tp.Any) -> None:
        t["ev"][-1]["val"][0] += 16
        t["ev"][-1]["val2"][0] += 16

    chk.selftest("LayersT", good, corrupt, "value changed")
    jobs2 = [chk.seed * 100000 + s for s in range(chk.scale(2500, 30000))]
    traces = collect(chk, pmap(randomized, jobs2, chunksize=20), "random stacks")
    chk.judge("LayersT", traces, "random stacks")
    traces = collect(chk, pmap(domains, jobs2, chunksize=20), "domains")
    chk.judge("LayersT", traces, "domains")
    good = next(t for t in traces if t["info"]["kind"] == "scalar")

    def corrupt2(t: tp.Any) -> None:
        e = [x for x in t["ev"] if x["k"] == "in"][-1]
        e["v"][0] = e["hi"][0][0] + 1

    chk.selftest("LayersT", good, corrupt2, "out of bounds")
