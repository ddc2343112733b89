"""C11, C12: an optimizer is a deterministic machine (spec/Replay.tla). Schedules of inputs over several replicas
(same seed), with saves, loads and noises, are executed on the real optimizers; the recorded answers have to be
a function of the history of the inputs."""
import gc
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys
import typing as tp
import warnings
from pathlib import Path

import numpy as np
import nevergrad as ng

import zoo
from common import Check, MachineryError, split_cfg
from util import collect, freeze_value, pmap

# the answers of these ones are not reproducible because of external libraries
EXTERNAL = {"NLOPT_GN_CRS2_LM", "NLOPT_GN_ESCH", "NLOPT_GN_ISRES", "NLOPT_LN_PRAXIS", "PymooBIPOP", "PymooCMAES",
            # directsearch
            "DSbase", "DSproba", "DSsubspace", "DS3p", "DS2", "DS4", "DS5", "DS6", "DS8", "DS9", "DS14", "ChainDSPowell", "ChainMetaModelDSSQP",
            "MetaModelDSproba", "MultiDS",
            "NGOptF5"}  # missing library
# their recommendation draws random numbers (from the random state of the parametrization)
RANDOM_RECOMMENDATION = {"StupidRandom", "HSCMA", "HSNeuralCMA", "HSSVMCMA", "HSRFCMA", "HSDE", "LhsHSDE"}
_PICKLE = Path(__file__).with_name("picklable.json")


def picklable() -> tp.Set[str]:
    return set(json.loads(_PICKLE.read_text())) if _PICKLE.exists() else set()


def alone(name: str, pname: str, budget: int, workers: int, length: int) -> bool:
    """whether the runs have to be made one after the other: some libraries hold a lock during a whole run (e.g. Cobyla)"""
    if name not in picklable():
        return True
    if not name.startswith(("NG", "Ng")):
        return False
    opt = zoo.make(name, zoo.param(pname), budget, workers)  # which algorithms are selected?
    for k in range(length):
        opt.tell(opt.ask(), k % 7)
        if not k % 7 or k > length - 3:
            try:
                pickle.dumps(opt)
            except ValueError:
                return True
    return False


def token(x: tp.Any) -> int:
    return int.from_bytes(hashlib.md5(repr(freeze_value(x)).encode()).digest()[:4], "little") % 1000000007


class Machine:
    """one replica: the optimizer and the candidates which wait for their loss"""

    def __init__(self, name: str, pname: str, budget: int, workers: int, seed: int, objectives: int) -> None:
        p = zoo.param(pname)
        p.random_state.seed(seed)
        self.opt = zoo.make(name, p, budget, workers)
        if objectives > 1:
            self.opt.num_objectives = objectives
        self.pname = pname
        self.objectives = objectives
        self.pend: tp.List[tp.Any] = []
        self.asked = 0

    def loss(self, x: int) -> tp.Any:
        return float(x) if self.objectives == 1 else [float((x * (j + 3)) % 11) for j in range(self.objectives)]

    def stats(self) -> tp.Any:
        o = self.opt
        best = o.current_bests["minimum"]  # always known, also with several objectives
        return [o.num_ask, o.num_tell, o.num_tell_not_asked, best.mean, best.count,
                sorted([freeze_value(c.value) for c in o.pareto_front()], key=repr) if self.objectives > 1 and o.num_tell else 0]

    def tell(self, c: tp.Any, x: int) -> tp.Any:
        try:
            self.opt.tell(c, self.loss(x))
        except ng.errors.TellNotAskedNotSupportedError:  # a legitimate answer
            return "refused"
        return self.stats()

    def feed(self, i: tp.Any) -> tp.Any:
        """executes one input: ["ask"], ["tell", number, x], ["tna", v, x], ["sug", v], ["rec"]"""
        k = i[0]
        if k == "ask":
            try:
                c = self.opt.ask()
            except AssertionError as e:
                if "Over the budget" in str(e):  # one-shot methods
                    return "refused"
                raise
            self.asked += 1
            self.pend.append((self.asked, c))
            return [freeze_value(c.args), freeze_value(c.kwargs), len(c.parents_uids)]
        if k == "tell":
            j = next((j for j, (n, _) in enumerate(self.pend) if n == i[1]), -1)
            if j < 0:
                return "not asked"
            _, c = self.pend.pop(j)
            return self.tell(c, i[2])
        if k in ("tna", "sug"):
            v = zoo.value(self.pname, random.Random(i[1]))
            args, kwargs = v if isinstance(v, tuple) else ((v,), {})
            if k == "sug":
                self.opt.suggest(*args, **kwargs)
                return 0
            c = self.opt.parametrization.spawn_child(new_value=v)
            return self.tell(c, i[2])
        assert k == "rec"
        r = self.opt.provide_recommendation() if self.opt.num_tell and self.objectives == 1 else self.opt.recommend()
        return [freeze_value(r.args), freeze_value(r.kwargs)]


def noise(m: Machine, w: str, rng: random.Random, name: str) -> None:
    if w == "global":
        np.random.rand(rng.randint(1, 3))
        random.random()
    elif w == "seed":
        np.random.seed(rng.randint(0, 1000))
        random.seed(rng.randint(0, 1000))
    elif w == "other":
        p = zoo.param(m.pname)
        o = zoo.make(name, p, 20, 1)
        for _ in range(2):
            c = o.ask()
            o.tell(c, m.loss(rng.randint(0, 5)) if o.num_objectives == m.objectives else 1.0)
        o.recommend()
    elif w == "read":
        o = m.opt
        _ = (o.num_ask, o.num_tell, o.budget, o.dimension, o.num_objectives, repr(o), o.name, o.num_tell_not_asked)
        if m.objectives > 1 and o.num_tell:
            o.pareto_front()
        for _, c in m.pend[:2]:
            _ = (c.value, c.get_standardized_data(reference=o.parametrization), c.get_value_hash(), repr(c))
        _ = [x.mean for x in list(o.archive.values())[:3]]
        o.parametrization.copy()
    elif w == "rec":
        m.opt.recommend()


class Theatre:
    """several replicas on one stage"""

    def __init__(self, name: str, pname: str, mode: str, seed: int, replicas: int, global_rng: bool, objectives: int = 1, budget: int = 60, workers: int = 1,
                 tmp: str = "") -> None:
        self.name, self.mode, self.seed, self.global_rng, self.tmp = name, mode, seed, global_rng, tmp
        self.rng = random.Random(f"noise{seed}")
        self.args = (name, pname, budget, workers, seed, objectives)
        self.m: tp.List[Machine] = []
        for r in range(replicas):
            np.random.seed(1000 + r if global_rng else seed)
            random.seed(1000 + r if global_rng else seed)
            self.m.append(Machine(*self.args))
        self.count = [0] * replicas
        self.slots: tp.List[tp.Any] = []
        self.ev: tp.List[tp.Any] = []
        self.ids: tp.Dict[str, int] = {}
        self.cfg = dict(replicas=replicas)
        self.info = dict(name=name, param=pname, mode=mode, seed=seed, objectives=objectives, budget=budget, workers=workers)

    def failed(self) -> bool:
        return bool(self.ev) and self.ev[-1]["err"] != ""

    def act(self, e: tp.Dict[str, tp.Any]) -> None:
        r = e["r"] - 1
        e = dict(dict(i=0, out=0, s=0), **e, err="")
        try:
            if e["k"] == "in":
                if not self.global_rng:  # saving and loading does not preserve the global state: the same for all
                    np.random.seed(self.seed + self.count[r])
                    random.seed(self.seed + self.count[r])
                self.count[r] += 1
                i = e["i"]
                e["show"] = i
                e["i"] = self.ids.setdefault(json.dumps(i), len(self.ids) + 1)
                e["out"] = token(self.m[r].feed(i))
            elif e["k"] == "save":
                m = self.m[r]
                if self.mode == "dump" and not m.pend:  # only the optimizer is in the file
                    path = f"{self.tmp}/opt_{self.name}_{self.seed}_{len(self.slots)}_{os.getpid()}.pkl"
                    m.opt.dump(path)
                    self.slots.append((path, m.asked, self.count[r]))
                else:
                    self.slots.append((pickle.dumps((m.opt, m.pend)), m.asked, self.count[r]))
            elif e["k"] == "load":
                m = self.m[r]
                slot = self.slots[e["s"] - 1]
                if isinstance(slot[0], str):
                    m.opt = type(m.opt).load(slot[0]) if self.rng.random() < 0.5 else ng.optimizers.base.Optimizer.load(slot[0])
                    m.pend, m.asked, self.count[r] = [], slot[1], slot[2]
                else:
                    (m.opt, m.pend), m.asked, self.count[r] = pickle.loads(slot[0]), slot[1], slot[2]
            else:
                noise(self.m[r], e["w"], self.rng, self.name)
        except Exception as ex:  # pylint: disable=broad-except
            e["err"] = repr(ex)[:200]
        self.ev.append(e)

    def stop(self, r: int) -> None:
        """the replica is not used any more"""
        self.m[r] = None
        gc.collect()

    def trace(self) -> tp.Dict[str, tp.Any]:
        for s in self.slots:
            if isinstance(s[0], str):
                if os.path.exists(s[0]):
                    os.remove(s[0])
        return dict(cfg=self.cfg, ev=self.ev, info=self.info)


def concrete(m: Machine, i: str, rng: random.Random) -> tp.Any:
    """input of the model to input of the machine"""
    if i == "ask":
        return ["ask"]
    if i.startswith("told"):
        n = m.pend[0 if i != "told1" else -1][0]
        return ["tell", n, dict(told0=1, told1=3, told2=2)[i]]
    if i == "sug":
        return ["sug", 3]
    return ["rec"]


def replay(job: tp.Any) -> tp.Any:
    warnings.simplefilter("ignore")
    seed, name, pname, mode, global_rng, tmp, hists = job
    out = []
    rng = random.Random(f"replay{seed}")
    workers = 1 if not zoo.supported(name, pname, "par") or ng.optimizers.registry[name].no_parallelization else 3
    for n, h in enumerate(hists):
        t = Theatre(name, pname, mode, seed + n, max(e["r"] for e in h), global_rng, tmp=tmp, workers=workers)
        single = alone(name, pname, 60, workers, 14)
        if single and mode != "none":
            continue
        if single:
            h = sorted(h, key=lambda e: e["r"])
        for k, e in enumerate(h):
            e = dict(e)
            if k and single and e["r"] != h[k - 1]["r"]:
                t.stop(h[k - 1]["r"] - 1)
            if e["k"] == "in":
                if e["i"] == "ask" and len(t.m[e["r"] - 1].pend) >= workers:
                    e["i"] = "told0"
                if e["i"] == "sug" and not zoo.supported(name, pname, "wild"):
                    continue
                if e["i"].startswith("told") and not t.m[e["r"] - 1].pend:
                    continue
                if e["i"] == "rec" and (t.m[e["r"] - 1].opt.num_tell == 0):
                    continue
                e["i"] = concrete(t.m[e["r"] - 1], e["i"], rng)
            t.act(e)
            if t.failed():
                break
        out.append(t.trace())
    return out


def script(rng: random.Random, length: int, workers: int, tna: bool, rec: bool) -> tp.List[tp.Any]:
    """a sequence of inputs"""
    out: tp.List[tp.Any] = []
    pend: tp.List[int] = []
    n = 0
    top = rng.choice([3, 20, 1000])
    while len(out) < length:
        u = rng.random()
        if tna and u < 0.04:
            out.append(["tna", rng.randint(0, 9), rng.randint(0, top)])
        elif tna and u < 0.08:
            out.append(["sug", rng.randint(0, 9)])
        elif rec and u < 0.13 and n > 2 and n > len(pend):
            out.append(["rec"])
        elif len(pend) < workers and (not pend or rng.random() < 0.6):
            n += 1
            pend.append(n)
            out.append(["ask"])
        else:
            out.append(["tell", pend.pop(rng.randrange(len(pend))), rng.randint(0, top)])
    return out


def straight(job: tp.Any) -> tp.Any:
    """replica 1: a sequence of inputs; replica 2: the same one, with saves, loads and noises; replica 3 (checkpoints):
    continues from one of the saves"""
    warnings.simplefilter("ignore")
    seed, name, pname, mode, global_rng, tmp, length = job
    rng = random.Random(f"straight{seed}{name}{pname}")
    workers = rng.choice([1, 1, 2, 5]) if zoo.supported(name, pname, "par") and not ng.optimizers.registry[name].no_parallelization else 1
    objectives = 1
    if pname in ("array2", "instru") and rng.random() < 0.15 and zoo.supported(name, pname, "wild"):
        objectives = rng.choice([2, 3])
    tna = zoo.supported(name, pname, "wild") and objectives == 1 and rng.random() < 0.5
    inputs = script(rng, length, workers, tna, objectives == 1)
    budget = rng.choice([length, length // 2, 4 * length])
    single = alone(name, pname, budget, workers, length // 2 + 5)
    if single and mode != "none":
        return []
    t = Theatre(name, pname, mode, seed % 100000, 3 if mode != "none" else 2, global_rng, objectives=objectives,
                budget=budget, workers=workers, tmp=tmp)
    pos = [0] * len(t.m)
    saved: tp.List[int] = []
    noises = ["global", "seed", "other", "read", "rec"] if global_rng else ["read"]
    if name in RANDOM_RECOMMENDATION:
        noises = [x for x in noises if x != "rec"]
    steps = 0
    while min(pos) < len(inputs) and steps < 6 * len(inputs) and not t.failed():
        steps += 1
        r = rng.randrange(len(t.m))
        if single:
            r = 0 if pos[0] < len(inputs) else 1
            if r == 1 and t.m[0] is not None:
                t.stop(0)
        u = rng.random()
        if r == 0 and u < 0.95 or u < 0.75:
            if pos[r] < len(inputs):
                t.act(dict(k="in", r=r + 1, i=inputs[pos[r]]))
                pos[r] += 1
        elif mode != "none" and u < 0.83 and len(saved) < 12:
            t.act(dict(k="save", r=r + 1))
            saved.append(pos[r])
        elif mode != "none" and u < 0.9 and saved:
            s = rng.randrange(max(0, len(saved) - 3), len(saved))
            t.act(dict(k="load", r=r + 1, s=s + 1))
            pos[r] = saved[s]
        elif noises:
            w = rng.choice(noises)
            if w == "other" and single:
                continue
            if w == "other" and (rng.random() < 0.7 or objectives > 1):
                continue
            if w == "rec" and (t.m[r].opt.num_tell == 0 or objectives > 1):
                continue
            t.act(dict(k="none", r=r + 1, w=w))
    return [t.trace()]


def names_for(chk: Check, pids: bool) -> tp.List[str]:
    names = [n for n in zoo.all_fast(chk) if n not in EXTERNAL]
    ok = picklable()
    return [n for n in names if not pids or n in ok]


def corrupt(t: tp.Any) -> None:
    seen: tp.Dict[int, int] = {}
    t["ev"][[j for j, e in enumerate(t["ev"]) if e["k"] == "in" and e["r"] == 2 and e["out"]][-1]]["out"] += 1


def common_part(chk: Check, mode: str) -> tp.List[tp.Any]:
    """model and schedules"""
    noises = {"none"} if mode != "none" else {"global", "seed", "read"}
    invs = ["InvFunctional", "InvNodes"]
    chk.model("ReplayMC", split_cfg("Spec", dict(MaxLen=chk.scale(5, 6), Replicas=2, Noises={"read"}, EMIT=False), invs=invs), name="exhaustive", workers=8)
    num = chk.scale(150, 1500)
    hists = chk.behaviours("ReplayMC", split_cfg("Spec", dict(MaxLen=24, Replicas=2, Noises=noises | {"read"}, EMIT=True), invs=invs), name="schedules",
                           args=["-simulate", f"num={num}", "-depth", "26", "-seed", str(chk.seed)], workers=1)
    byprefix = {json.dumps(h[:-1]): h for h in hists}  # TLC prints all the last steps: one of each
    return list(byprefix.values())


def jobs_for(chk: Check, names: tp.Sequence[str], hists: tp.Sequence[tp.Any], mode: str, global_rng: bool) -> tp.Tuple[tp.List[tp.Any], tp.List[tp.Any]]:
    rng = random.Random(chk.seed)
    tmp = str(chk.work)
    core = [n for n in zoo.CORE if n in names]
    j1 = []
    for n, name in enumerate(core * chk.scale(1, 4)):
        pname = rng.choice([p for p in zoo.PARAMS if zoo.supported(name, p, "seq")] or ["array2"])
        part = rng.sample(list(hists), min(len(hists), chk.scale(6, 40)))
        j1.append((chk.seed * 1000 + 50 * n, name, pname, mode and rng.choice(["pickle", "dump"]) if mode != "none" else "none", global_rng, tmp,
                   [[e for e in h if mode != "none" or e["k"] in ("in", "none")] for h in part]))
    j2 = []
    todo = core * chk.scale(3, 30) + list(names) * chk.scale(1, 8)
    for n, name in enumerate(todo):
        ps = [p for p in zoo.PARAMS if zoo.supported(name, p, "seq")]
        if ps:
            j2.append((chk.seed * 10000 + n, name, rng.choice(ps), rng.choice(["pickle", "dump"]) if mode != "none" else "none", global_rng, tmp,
                       rng.choice([50, 90])))
    return j1, j2


def run_C11(chk: Check) -> None:
    hists = [[e if e["k"] != "none" else dict(e, w="read") for e in h] for h in common_part(chk, "pickle")]
    j1, j2 = jobs_for(chk, names_for(chk, True), hists, "pickle", False)
    traces = collect(chk, pmap(replay, j1), "schedules of the model")
    chk.behaviours_replayed += len(traces)
    chk.judge("ReplayT", traces, "schedules of the model")
    traces = collect(chk, pmap(straight, j2, chunksize=2), "random schedules")
    chk.judge("ReplayT", traces, "random schedules")
    good = next(t for t in traces if t["ev"][-1]["err"] == "" and len(t["ev"]) > 60)
    chk.selftest("ReplayT", good, corrupt, "another answer after a reload")


def other_process(job: tp.Any) -> tp.Any:
    """runs the jobs in a new interpreter, with another hash seed"""
    hashseed, jobs = job
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_JOBS=json.dumps(jobs))
    r = subprocess.run([sys.executable, __file__], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, check=False)
    lines = [x for x in r.stdout.decode().splitlines() if x.startswith("@@")]
    if not lines:
        raise MachineryError(f"no answer of the other interpreter: {r.stderr.decode()[-2000:]}")
    return json.loads(lines[-1][2:])


def lonely(jobs: tp.Sequence[tp.Any]) -> tp.List[tp.Any]:
    """answers of a fresh optimizer, for each job"""
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    out = []
    for seed, name, pname, length in jobs:
        rng = random.Random(f"lonely{seed}{name}")
        workers = rng.choice([1, 3]) if zoo.supported(name, pname, "par") and not ng.optimizers.registry[name].no_parallelization else 1
        inputs = script(rng, length, workers, zoo.supported(name, pname, "wild") and rng.random() < 0.5, True)
        t = Theatre(name, pname, "none", seed % 100000, 1, True, budget=length, workers=workers)
        for i in inputs:
            t.act(dict(k="in", r=1, i=i))
            if t.failed():
                break
        out.append(t.ev)
    return out


def run_C12(chk: Check) -> None:
    hists = common_part(chk, "none")
    names = names_for(chk, False)
    j1, j2 = jobs_for(chk, names, hists, "none", True)
    traces = collect(chk, pmap(replay, j1), "schedules of the model")
    chk.behaviours_replayed += len(traces)
    chk.judge("ReplayT", traces, "schedules of the model")
    traces = collect(chk, pmap(straight, j2, chunksize=2), "random schedules")
    chk.judge("ReplayT", traces, "random schedules")
    good = next(t for t in traces if t["ev"][-1]["err"] == "" and len(t["ev"]) > 60)
    chk.selftest("ReplayT", good, corrupt, "another answer")
    # other interpreters: replica 1 here is the run in one interpreter, replica 2 the one in another
    rng = random.Random(chk.seed)
    jobs = []
    for n, name in enumerate(names):
        ps = [p for p in zoo.PARAMS if zoo.supported(name, p, "seq")]
        if ps:
            jobs.append((chk.seed * 1000 + n, name, rng.choice(ps), 40))
    k = 4
    parts = [jobs[i::k] for i in range(k)]
    results = pmap(other_process, [(h, p) for p in parts for h in (1, 77)], timeout=700)
    answers = []
    for s, v in results:
        if s != "ok":
            raise MachineryError(f"other interpreters: {s} {v}")
        answers.append(v)
    traces = []
    for i, part in enumerate(parts):
        for job, a, b in zip(part, answers[2 * i], answers[2 * i + 1]):
            traces.append(dict(cfg=dict(replicas=2), ev=a + [dict(e, r=2) for e in b], info=dict(job=job)))
    chk.judge("ReplayT", traces, "other interpreters")


if __name__ == "__main__":
    print("\n@@" + json.dumps(lonely(json.loads(os.environ["VERIF_JOBS"]))))
