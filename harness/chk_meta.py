"""C19: optimizers made of other optimizers (spec/Meta.tla)"""
import random
import typing as tp
import warnings

import numpy as np
import nevergrad as ng
from nevergrad.common import errors
from nevergrad.optimization import base as obase
from nevergrad.optimization import optimizerlib as olib

from common import Check, split_cfg
from util import collect, pmap

UNIT = 1000  # coordinates are recorded in thousandths


class World:
    members: tp.List["Stub"] = []
    asked: tp.List[tp.Any] = []  # answers of the members during the current call
    got: tp.List[tp.Any] = []
    uids: tp.Dict[str, int] = {}
    points = 0
    mult = 1


def data_of(cand: tp.Any, ref: tp.Any) -> tp.List[int]:
    return [int(round(float(x) * UNIT)) for x in cand.get_standardized_data(reference=ref)]


class Stub(obase.Optimizer):
    """member which records what it is asked and told"""

    refuse = False

    def __init__(self, parametrization: tp.Any, budget: tp.Optional[int] = None, num_workers: int = 1) -> None:
        super().__init__(parametrization, budget=budget, num_workers=num_workers)
        World.members.append(self)
        self.index = len(World.members)

    def ask(self) -> tp.Any:
        cand = super().ask()
        World.points += 1
        World.uids[cand.uid] = World.points
        World.asked.append(dict(m=self.index, c=World.points, d=data_of(cand, self.parametrization)))
        return cand

    def tell(self, candidate: tp.Any, loss: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> None:
        World.got.append(dict(m=self.index, c=World.uids.get(candidate.uid, 0), x=int(loss),
                              d=data_of(candidate, self.parametrization)))
        super().tell(candidate, loss, *args, **kwargs)

    def _internal_ask_candidate(self) -> tp.Any:
        return self.parametrization.spawn_child().set_standardized_data(
            [float((World.points + 1) * World.mult)] * self.dimension
        )

    def _internal_tell_candidate(self, candidate: tp.Any, loss: tp.Any) -> None:
        pass

    def _internal_tell_not_asked(self, candidate: tp.Any, loss: tp.Any) -> None:
        if self.refuse:
            raise errors.TellNotAskedNotSupportedError


def stub(refuse: bool = False, oneshot: bool = False, sequential: bool = False) -> tp.Any:
    return type("Member", (Stub,), dict(refuse=refuse, one_shot=oneshot, no_parallelization=sequential))


def build(c: tp.Dict[str, tp.Any]) -> tp.Any:
    """the optimizer of a configuration (completed with what its members received)"""
    World.members, World.asked, World.got, World.uids, World.points = [], [], [], {}, 0
    World.mult = c["den"]
    classes = [stub(c["refuse"][i], c["oneshot"][i], c["seq"][i]) for i in range(c["n"])]
    kind = c["kind"]
    param = ng.p.Array(shape=(sum(c["dims"]),))
    param.random_state.seed(12)
    cls: tp.Any
    if kind == "portfolio":
        cls = ng.optimizers.ConfPortfolio(optimizers=classes, warmup_ratio=None if c["warm"] < 0 else c["warm"] / 10)
    elif kind == "chain":
        cls = ng.optimizers.Chaining(classes, [s["name"] or s["value"] for s in c["spec"]], no_crossing=c["nocross"])
    elif kind == "split":
        kwargs: tp.Dict[str, tp.Any] = dict(num_optims=c["n"]) if c["equal"] else dict(num_vars=list(c["dims"]))
        cls = ng.optimizers.ConfSplitOptimizer(
            progressive=c["prog"], multivariate_optimizer=stub(), monovariate_optimizer=stub(), **kwargs
        )
    elif kind == "rescaled":
        cls = ng.optimizers.Rescaled(base_optimizer=classes[0], scale=c["num"] / c["den"])
    elif kind == "metamodel":
        cls = ng.optimizers.ParametrizedMetaModel(multivariate_optimizer=classes[0])
    else:
        cls = type("Wizard", (olib.NGOptBase,), dict(_select_optimizer_cls=lambda self: classes[0]))
    World.members = []  # configurations are tried when they are defined
    opt = cls(param, budget=c["B"] or None, num_workers=c["W"])
    if kind == "wrapper":
        opt.optim  # pylint: disable=pointless-statement
    return opt


class Runner:
    def __init__(self, cfg: tp.Dict[str, tp.Any]) -> None:
        self.cfg = cfg
        self.opt = build(cfg)
        self.members = list(World.members)
        cfg["mb"] = [m.budget or 0 for m in self.members]
        cfg["mw"] = [m.num_workers for m in self.members]
        self.ev: tp.List[tp.Any] = [dict(k="init", mb=cfg["mb"], mw=cfg["mw"])]
        self.cands: tp.List[tp.Any] = []
        self.foreign = 100

    def fresh(self) -> tp.List[float]:
        self.foreign += 1
        return [float(self.foreign * self.cfg["num"] * self.cfg["den"])] * self.opt.dimension

    def ask(self) -> bool:
        World.asked, err = [], ""
        sug = bool(self.opt._suggestions)
        out: tp.List[int] = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                cand = self.opt.ask()
            except Exception as e:  # pylint: disable=broad-except
                err = f"{type(e).__name__}: {e}"
            else:
                self.cands.append(cand)
                out = data_of(cand, self.opt.parametrization)
        a = World.asked
        self.ev.append(dict(k="ask", sug=sug, m=[x["m"] for x in a], mc=[x["c"] for x in a], md=[x["d"] for x in a],
                            out=out, err=err))
        return not err

    def tell(self, c: int, loss: int) -> bool:
        World.got, err = [], ""
        if c:
            cand = self.cands[c - 1]
        else:
            cand = self.opt.parametrization.spawn_child().set_standardized_data(self.fresh())
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                self.opt.tell(cand, loss)
            except errors.TellNotAskedNotSupportedError:
                err = "refused"
            except Exception as e:  # pylint: disable=broad-except
                err = f"{type(e).__name__}: {e}"
        self.ev.append(dict(k="tell", c=c, d=data_of(cand, self.opt.parametrization), x=loss, got=World.got, err=err))
        return err in ("", "refused")

    def suggest(self) -> None:
        self.opt.suggest(np.array(self.fresh()))
        self.ev.append(dict(k="sug"))

    def trace(self, **info: tp.Any) -> tp.Dict[str, tp.Any]:
        return dict(cfg=self.cfg, ev=self.ev, info=info)


def replay(job: tp.Any) -> tp.Any:
    cfg, hists = job
    out = []
    for hist in hists:
        cfg_ = dict(cfg)
        r = Runner(cfg_)
        for h in hist:
            ok = True
            if h["k"] == "ask":
                ok = r.ask()
            elif h["k"] == "sug":
                r.suggest()
            else:
                ok = r.tell(h["c"], h["x"])
            if not ok:
                break
        out.append(r.trace(history=hist))
    return out


NAMES = ["num_workers", "dimension", "half", "third", "fourth", "tenth", "equal", "most", "sqrt"]


def config(kind: str, rng: random.Random) -> tp.Dict[str, tp.Any]:
    n = rng.randint(2, 4) if kind in ("portfolio", "chain", "split") else 1
    W = rng.choice([1, 1, 2, 3, 5, 9])
    B = rng.choice([0, 7, 13, 29, 50])
    c: tp.Dict[str, tp.Any] = dict(kind=kind, n=n, W=W, B=B, spec=[], nocross=False, warm=-1, oneshot=[False] * n,
                                   refuse=[False] * n, seq=[False] * n, num=1, den=1, prog=False, equal=False)
    c["dims"] = [rng.randint(1, 3)] + [0] * (n - 1)
    if kind == "portfolio":
        if B:
            c["warm"] = rng.choice([-1, 1, 3, 5, 9])
        c["oneshot"] = [rng.random() < 0.25 for _ in range(n)]
        c["refuse"] = [rng.random() < 0.4 for _ in range(n)]
        if rng.random() < 0.2:
            c["refuse"] = [True] * n
        c["seq"] = [rng.random() < 0.3 for _ in range(n)]
        if all(c["seq"]):
            c["seq"][0] = False
    elif kind == "chain":
        c["nocross"] = rng.random() < 0.3
        c["refuse"] = [rng.random() < 0.3 for _ in range(n)]
        c["spec"] = [dict(name=rng.choice(NAMES), value=0) if rng.random() < 0.6 else dict(name="", value=rng.randint(1, 8))
                     for _ in range(n - 1)]
        if B == 0 and rng.random() < 0.5:
            c["B"] = 29
    elif kind == "split":
        c["B"] = B or 7
        c["prog"] = rng.random() < 0.5
        c["equal"] = rng.random() < 0.5
        if c["equal"]:
            d = rng.randint(n, 9)
            c["dims"] = [d // n + (1 if i < d % n else 0) for i in range(n)]
        else:
            c["dims"] = [rng.randint(1, 3) for _ in range(n)]
    elif kind == "rescaled":
        c["num"], c["den"] = rng.choice([(1, 1), (2, 1), (1, 2), (10, 1), (1, 4), (5, 4)])
    elif kind == "metamodel":
        c["dims"] = [rng.randint(2, 3)]
    elif kind == "wrapper":
        c["B"] = B or 13
    return c


def randomized(job: tp.Any) -> tp.Any:
    kind, seed = job
    rng = random.Random(f"meta{job}")
    r = Runner(config(kind, rng))
    told: tp.Set[int] = set()
    losses = list(range(1, 2000))
    rng.shuffle(losses)
    again = r.cfg["warm"] < 0
    par = rng.choice([1, r.cfg["W"], r.cfg["W"], r.cfg["W"] + 2])
    total = rng.choice([10, 30, 80]) if kind != "metamodel" else rng.choice([30, 80, 120])
    special = rng.choice([0.0, 0.0, 0.1, 0.3])
    for _ in range(total):
        u = rng.random()
        pending = [i + 1 for i in range(len(r.cands)) if i + 1 not in told]
        ok = True
        if u < special / 3:
            if not r.opt._suggestions:
                r.suggest()
        elif u < 2 * special / 3:
            ok = r.tell(0, losses.pop())
        elif u < special and told and again:
            ok = r.tell(rng.choice(sorted(told)), losses.pop())
        elif len(pending) < par and (not pending or rng.random() < 0.7):
            ok = r.ask()
        elif pending:
            c = rng.choice(pending)
            told.add(c)
            ok = r.tell(c, losses.pop())
        if not ok:
            break
    return r.trace(job=job)


def run_C19(chk: Check) -> None:
    length = chk.scale(5, 6)
    jobs = []
    for kind, variants in [("chain", 4), ("portfolio", 5), ("split", 2), ("rescaled", 1), ("wrapper", 1), ("metamodel", 1)]:
        for v in range(1, variants + 1):
            consts = dict(Kind=kind, Variant=v, MaxLen=length, EMIT=False)
            chk.model("MetaMC", split_cfg("Spec", dict(consts, MaxLen=length + 1), invs=[
                "InvProviderTold", "InvNotPendingTold", "InvSelected", "InvChain", "InvWorkers", "InvTold"]),
                name=f"{kind}{v}")
            beh = chk.behaviours("MetaMC", split_cfg("Spec", dict(consts, EMIT=True)), name=f"histories of {kind}{v}")
            cfg = beh[0]["cfg"]
            hists = [b["hist"] for b in beh]
            jobs += [(cfg, hists[i : i + 200]) for i in range(0, len(hists), 200)]
    traces = collect(chk, pmap(replay, jobs, timeout=300), "histories")
    chk.judge("MetaT", traces, "behaviours of the model on the real optimizers")
    n = chk.scale(120, 2500)
    seeds = [(k, chk.seed * 100000 + i) for k in ["portfolio", "portfolio", "chain", "chain", "split", "rescaled", "wrapper", "metamodel"]
             for i in range(n)]
    seeds = [(k, s + (n if j >= n and k in ("portfolio", "chain") else 0)) for j, (k, s) in enumerate(seeds)]
    seeds = sorted(set(seeds))
    traces = collect(chk, pmap(randomized, seeds, timeout=300, chunksize=20), "random histories")
    chk.judge("MetaT", traces, "random histories on random compositions")
    clean = next(t for t in traces if t["cfg"]["kind"] == "chain" and not t["cfg"]["nocross"]
                 and any(e["k"] == "tell" and e["got"] for e in t["ev"]))

    def wrong_loss(t: tp.Any) -> None:
        e = next(e for e in t["ev"] if e["k"] == "tell" and e["got"])
        e["got"][0]["x"] += 1

    def not_told(t: tp.Any) -> None:
        e = next(e for e in t["ev"] if e["k"] == "tell" and e["got"])
        e["got"].pop()

    def other_member(t: tp.Any) -> None:
        e = next(e for e in t["ev"] if e["k"] == "ask" and e["m"])
        e["m"] = [e["m"][0] % t["cfg"]["n"] + 1]

    chk.selftest("MetaT", clean, wrong_loss, "loss of another point")
    chk.selftest("MetaT", clean, not_told, "member not told")
    chk.selftest("MetaT", clean, other_member, "other member asked")
