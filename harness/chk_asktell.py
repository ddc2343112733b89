"""C01 (ask/tell accounting), C02 (records and current bests), C03 (suggestions): spec/AskTell.tla"""
import random
import weakref
import typing as tp

import numpy as np

from common import Check, MachineryError, split_cfg
from util import BIG, Tokens, cap, collect, freeze_value, is_frozen, pmap
import zoo

CRITERIA = ["optimistic", "pessimistic", "minimum", "average"]


class Recorder:
    """Drives an optimizer through its public API and records what is observed"""

    def __init__(self, opt: tp.Any, table: bool = False, recom: int = 0) -> None:
        self.opt = opt
        self.ids = Tokens()
        self.vals = Tokens()
        self.pts = Tokens()
        self.table = table
        self.recom = recom
        self.cands: tp.Dict[int, tp.Any] = {}
        self.outstanding: tp.List[int] = []
        self.ev: tp.List[tp.Dict[str, tp.Any]] = []
        # some optimizers suggest points to themselves during ask
        self.inner: tp.List[tp.Any] = []
        inner, ref, instru = self.inner, weakref.ref(opt), self._instru()  # no reference cycle

        def suggest(*args: tp.Any, **kwargs: tp.Any) -> None:
            o = ref()
            type(o).suggest(o, *args, **kwargs)
            inner.append((args, kwargs) if instru else args[0])

        opt.suggest = suggest

    def _instru(self) -> bool:
        import nevergrad as ng

        return isinstance(self.opt.parametrization, ng.p.Instrumentation)

    def counters(self) -> tp.Dict[str, int]:
        o = self.opt
        return dict(nask=int(o.num_ask), ntell=int(o.num_tell), nna=int(o.num_tell_not_asked))

    def pt(self, cand: tp.Any) -> int:
        return self.pts(cand.get_standardized_data(reference=self.opt.parametrization))

    def suggest(self, value: tp.Any, refused: bool = False) -> None:
        if self._instru():
            type(self.opt).suggest(self.opt, *value[0], **value[1])
        else:
            type(self.opt).suggest(self.opt, value)
        self.ev.append(dict(k="suggest", val=self.vals(freeze_value(value, 6)), **self.counters()))
        if refused:
            self.ev[-1]["refused"] = True

    def ask(self) -> tp.Optional[int]:
        err, ident, frozen, val = "", 0, False, 0
        try:
            cand = self.opt.ask()
            ident = self.ids(cand.uid)
            frozen = is_frozen(cand)
            val = self.vals(freeze_value(cand.value, 6))
            self.cands[ident] = cand
            self.outstanding.append(ident)
        except Exception as e:  # pylint: disable=broad-except
            err = type(e).__name__ or "error"
        self.ev.append(dict(k="ask", id=ident, frozen=frozen, val=val, err=err, **self.counters()))
        for value in self.inner:
            self.ev.append(dict(k="suggest", val=self.vals(freeze_value(value, 6)), **self.counters()))
        self.inner.clear()
        return ident if not err else None

    def tell(self, ident: int, loss: tp.Any, kept: tp.Optional[int] = None) -> None:
        cand = self.cands[ident]
        opt = self.opt
        pt = self.pt(cand) if self.table else 0
        n0 = self._count(cand) if self.table else 0
        err = ""
        try:
            opt.tell(cand, loss)
        except Exception as e:  # pylint: disable=broad-except
            err = type(e).__name__ or "error"
        if ident in self.outstanding and not err:
            self.outstanding.remove(ident)
        e: tp.Dict[str, tp.Any] = dict(k="tell", id=ident, pt=pt, loss=kept if kept is not None else cap(loss),
                                       err=err, frozen=is_frozen(cand), rec=True, **self.counters())
        if self.table:
            e["rec"] = self._count(cand) > n0
            e["kept"] = cap(cand.loss if cand.loss is not None else float("nan"))
            rows = []
            for key, mv in opt.archive.bytesdict.items():
                x = np.frombuffer(key)
                s = mv.mean * mv.count
                rows.append(dict(pt=self.pts(x), n=int(mv.count),
                                 sum=cap(s) if abs(s - round(s)) < 1e-4 or abs(s) > 1e8 else -987654321,
                                 min=cap(mv.get_estimation("minimum")),
                                 est=[cap(mv.get_estimation(c), 1000) for c in CRITERIA]))
            e["table"] = rows
            e["bests"] = [dict(pt=self.pts(opt.current_bests[c].x),
                               est=cap(opt.current_bests[c].get_estimation(c), 1000)) for c in CRITERIA]
            if self.recom:
                e["recom"] = self.pt(opt.recommend())
                e["rcrit"] = self.recom
        self.ev.append(e)

    def _count(self, cand: tp.Any) -> int:
        mv = self.opt.archive.get(cand.get_standardized_data(reference=self.opt.parametrization))
        return 0 if mv is None else mv.count

    def external(self, value: tp.Any = None) -> int:
        """a candidate which was not provided by ask"""
        p = self.opt.parametrization
        cand = p.sample() if value is None else p.spawn_child(new_value=value)
        ident = self.ids(cand.uid)
        self.cands[ident] = cand
        return ident

    def trace(self, groups: tp.Sequence[str], info: tp.Any) -> tp.Dict[str, tp.Any]:
        cfg: tp.Dict[str, tp.Any] = dict(groups=list(groups))
        if refuses(self.opt):
            cfg["refuse"] = True
        return dict(cfg=cfg, ev=self.ev, info=info)


def refuses(opt: tp.Any) -> bool:
    """sequential optimizers can refuse an ask while another candidate is outstanding, and so can
    the optimizers which are built upon them"""
    from nevergrad.optimization import recaster

    if isinstance(opt, recaster.RecastOptimizer):
        return True
    subs = list(getattr(opt, "optims", [])) + list(getattr(opt, "optimizers", []))
    subs += [getattr(opt, n, None) for n in ("_optimizer", "optim", "_optim")]
    return any(refuses(s) for s in subs if s is not None)


def variant_loss(rng: random.Random, special: bool) -> tp.Tuple[tp.Any, int]:
    """a loss in the various accepted forms, and its expected integer value"""
    x = rng.randint(0, 5)
    forms = [float(x), x, np.float64(x), np.array(float(x)), [float(x)], (x,), np.array([x]), [x]]
    if not special:
        return forms[rng.randrange(2)], x
    if rng.random() < 0.15:
        big = rng.choice([float("inf"), float("nan"), 1e30, np.array(np.nan), [float("nan")], np.array([1e30]),
                          [float("inf")], 5e20, np.float32("inf")])
        return big, BIG
    return forms[rng.randrange(len(forms))], x


# ------------------------------------------------------------------ random histories
def random_history(job: tp.Any) -> tp.Any:
    name, pname, seed, steps, groups, mode = job
    rng = random.Random(f"{name}{pname}{seed}")
    np.random.seed(rng.randrange(2**31))
    param = zoo.param(pname)
    param.random_state.seed(rng.randrange(2**31))
    workers = 1 if mode == "seq" else rng.choice([1, 2, 3, 5])
    opt = zoo.make(name, param, budget=steps, num_workers=workers)
    if opt is None:
        return None
    recom = zoo.recommendation(name, opt) if "arch" in groups else 0
    rec = Recorder(opt, table="arch" in groups, recom=recom)
    told: tp.List[int] = []
    special = "arch" in groups and rng.random() < 0.4
    pool = [zoo.value(pname, rng) for _ in range(3)]
    one_shot_left = steps
    tabu = param.tabu_length > 0  # a suggestion can be in the tabu list, and then it is not used
    for _ in range(steps):
        if len(rec.ev) >= steps:
            break
        u = rng.random()
        if mode == "seq":
            i = rec.ask()
            if i is None:
                break
            loss, kept = variant_loss(rng, special)
            rec.tell(i, loss, kept)
            continue
        if u < 0.40 and one_shot_left > 0:
            one_shot_left -= 1
            if len(rec.outstanding) < workers or mode == "wild":
                if rec.ask() is None:
                    break
        elif u < 0.72 and rec.outstanding:
            i = rec.outstanding[rng.randrange(len(rec.outstanding))]
            loss, kept = variant_loss(rng, special)
            rec.tell(i, loss, kept)
            told.append(i)
        elif mode == "wild" and u < 0.82:
            i = rec.external(rng.choice(pool) if rng.random() < 0.6 else None)
            loss, kept = variant_loss(rng, special)
            rec.tell(i, loss, kept)
            told.append(i)
        elif mode == "wild" and u < 0.9 and told:
            loss, kept = variant_loss(rng, special)
            rec.tell(rng.choice(told), loss, kept)
        elif mode == "wild" and u < 0.97 and not tabu:
            value = rng.choice(pool)
            rec.suggest(value, zoo.refused(pname, value))
    return rec.trace(groups, dict(optimizer=name, param=pname, seed=seed, mode=mode, workers=workers))


# ------------------------------------------------------------------ behaviours of the model
def replay_history(job: tp.Any) -> tp.Any:
    name, hists, groups, constrained = job
    out = []
    for hist in hists:
        pname = "constrained" if constrained else "array2"
        param = zoo.param(pname)
        param.random_state.seed(12)
        opt = zoo.make(name, param, budget=30, num_workers=4)
        recom = zoo.recommendation(name, opt) if "arch" in groups else 0
        rec = Recorder(opt, table="arch" in groups, recom=recom)
        values = {1: [0.25, -1.5], 2: [-2.0, 0.75]}
        for h in hist:
            if h["k"] == "ask":
                if rec.ask() is None:
                    break
            elif h["k"] == "suggest":
                rec.suggest(values[h["val"]], zoo.refused(pname, values[h["val"]]))
            elif h["k"] == "other":
                i = rec.external(values[h["val"]])
                if i != h["id"]:
                    raise MachineryError("identifiers do not match the model")
                rec.tell(i, float(h["loss"]))
            else:
                rec.tell(h["id"], float(h["loss"]))
        out.append(rec.trace(groups, dict(optimizer=name, history=hist)))
    return out


def model_histories(chk: Check, maxlen: int, losses: tp.Set[int], constrained: bool = False) -> tp.List[tp.Any]:
    consts = dict(MaxLen=maxlen, Values={1, 2}, Refused={2} if constrained else set(), Losses=losses, EMIT=True, NOASKFAIL=True)
    cfg = split_cfg("Spec", consts, invs=["InvAccounting", "InvRecords", "InvMin"], props=["Monotone"])
    return chk.behaviours("AskTellMC", cfg, name=f"len{maxlen}{'_constrained' * constrained}")


def exhaustive(chk: Check, groups: tp.Sequence[str], names: tp.Sequence[str], maxlen: int, keep: tp.Any = None,
               constrained: bool = False) -> None:
    hists = model_histories(chk, maxlen, {1} if constrained or maxlen > 4 else {0, 1}, constrained)
    if keep is not None:
        hists = [h for h in hists if keep(h)]
    rng = random.Random(chk.seed)
    rng.shuffle(hists)
    jobs = []
    for k, name in enumerate(names):
        sub = hists if k == 0 or not chk.quick else hists[k :: 6]
        size = max(1, len(sub) // 16)
        jobs += [(name, sub[i : i + size], groups, constrained) for i in range(0, len(sub), size)]
    traces = collect(chk, pmap(replay_history, jobs, timeout=300), "model histories")
    chk.behaviours_replayed += len(traces)
    chk.judge("AskTellT", traces, f"model histories ({','.join(groups)}{' constrained' * constrained})")


def _sweep(chk: Check, groups: tp.Sequence[str], jobs: tp.List[tp.Any], what: str) -> tp.List[tp.Any]:
    jobs = [j for j in jobs if zoo.supported(j[0], j[1], j[5])]
    traces = collect(chk, pmap(random_history, jobs, timeout=40), what)
    chk.judge("AskTellT", traces, what)
    return traces


# ------------------------------------------------------------------ pruning
def prune_history(job: tp.Any) -> tp.Any:
    from nevergrad.optimization import utils

    seed, minlen, maxlen, mode = job
    rng = random.Random(f"prune{job}")
    ev: tp.List[tp.Any] = []
    pts = Tokens()
    names = ["optimistic", "pessimistic", "average"]

    def ranks(archive: tp.Any) -> tp.List[tp.Any]:
        mvs = list(archive.bytesdict.items())
        per = []
        for n in names:
            vals = [mv.get_estimation(n) for _, mv in mvs]
            order = {v: i for i, v in enumerate(sorted(set(vals)))}
            per.append([order[v] for v in vals])
        return [dict(pt=pts(b), est=[per[c][i] for c in range(3)]) for i, (b, _) in enumerate(mvs)]

    class Spy:
        def __init__(self) -> None:
            self.func = utils.Pruning(min_len=minlen, max_len=maxlen)

        def __call__(self, archive: tp.Any) -> tp.Any:
            rows = ranks(archive)
            before = dict(archive.bytesdict)
            out = self.func(archive)
            same = all(before.get(b) is mv for b, mv in out.bytesdict.items())
            ev.append(dict(k="prune", rows=rows, after=[pts(b) for b in out.bytesdict], min=minlen, max=maxlen, same=same))
            return out

    param = zoo.param("array2")
    param.random_state.seed(seed)
    opt = zoo.make("RandomSearch", param, budget=200, num_workers=1)
    opt.pruning = Spy()
    told: tp.List[tp.Any] = []
    for _ in range(3 * maxlen):
        if told and rng.random() < (0.3 if mode == "repeat" else 0.0):
            cand = rng.choice(told)
        else:
            cand = opt.ask()
            told.append(cand)
        if mode == "spread":  # certain, uncertain and noisy points
            cand = param.spawn_child(new_value=[float(len(told)), 0.0])
            kind, y = rng.randrange(3), float(rng.randint(0, 30))
            for k in range([1, 5, 4][kind]):
                opt.tell(cand, y + (0 if kind < 2 else [0, 2000, -2000, 0][k]))
        else:
            opt.tell(cand, float(rng.randint(0, 3 if mode == "ties" else 40)))
        ests = [[mv.get_estimation(c) for c in CRITERIA] for mv in opt.archive.values()]
        bests = [opt.current_bests[c].get_estimation(c) for c in CRITERIA]
        per = []
        for c in range(4):
            order = {v: i for i, v in enumerate(sorted({e[c] for e in ests} | {bests[c]}))}
            per.append(order)
        ev.append(dict(k="pruned_tell", ests=[[per[c][e[c]] for c in range(4)] for e in ests],
                       bests=[per[c][bests[c]] for c in range(4)], max=maxlen))
    return dict(cfg=dict(groups=["arch"]), ev=ev, info=dict(job=job))


def pruning(chk: Check) -> None:
    jobs = [(chk.seed * 100 + s, mn, mx, mode) for s in range(chk.scale(2, 12)) for mn, mx in ((2, 8), (3, 12), (4, 14))
            for mode in ("repeat", "ties", "distinct", "spread")]
    traces = collect(chk, pmap(prune_history, jobs, timeout=60), "pruning")
    chk.judge("AskTellT", traces, "pruning of the archive")

    def corrupt(t: tp.Any) -> None:
        e = next(e for e in reversed(t["ev"]) if e["k"] == "prune" and e["after"])
        e["after"] = e["after"][1:]

    chk.selftest("AskTellT", traces[0], corrupt, "a record was lost by the pruning")


def run_C01(chk: Check) -> None:
    groups = ["acc"]
    exhaustive(chk, groups, ["OnePlusOne", "DE", "PSO", "RandomSearch", "CMA", "ES", "NGOpt"], chk.scale(4, 5))
    exhaustive(chk, groups, ["OnePlusOne", "RandomSearch", "PSO"], chk.scale(4, 5), constrained=True,
               keep=lambda h: any(e["k"] == "suggest" and e["val"] == 2 for e in h))
    rng = random.Random(chk.seed)
    names = zoo.all_fast(chk)
    jobs = []
    for name in names:
        jobs.append((name, "array2", chk.seed, 26, groups, "par"))
        jobs.append((name, rng.choice(["instru", "mixed", "choice"]), chk.seed, 22, groups, "par"))
        jobs.append((name, rng.choice(["array2", "mixed"]), chk.seed, 22, groups, "wild"))
    core = zoo.CORE
    jobs += [(name, "constrained", chk.seed, 22, groups, "wild") for name in core]
    for name in core:
        for s in range(chk.scale(6, 60)):
            jobs.append((name, rng.choice(zoo.PARAMS), chk.seed * 1000 + s, rng.choice([20, 40]), groups,
                         rng.choice(["wild", "wild", "par", "seq"])))
    traces = _sweep(chk, groups, jobs, "random histories of all optimizers")
    chk.notes["optimizers"] = len({t["info"]["optimizer"] for t in traces})
    good = next(t for t in traces if any(e["k"] == "tell" and not e["err"] for e in t["ev"]))

    def corrupt(t: tp.Any) -> None:
        e = next(e for e in reversed(t["ev"]) if e["k"] == "tell")
        e["nna"] += 1

    chk.selftest("AskTellT", good, corrupt, "num_tell_not_asked changed")


def run_C02(chk: Check) -> None:
    groups = ["arch"]
    exhaustive(chk, groups, ["OnePlusOne", "DE", "RandomSearch"], chk.scale(4, 5),
               keep=lambda h: sum(e["k"] in ("tell", "other") for e in h) >= 2)
    rng = random.Random(chk.seed)
    jobs = []
    for name in zoo.CORE:
        for s in range(chk.scale(10, 100)):
            jobs.append((name, rng.choice(zoo.PARAMS), chk.seed * 1000 + s, rng.choice([15, 30]), groups,
                         rng.choice(["wild", "wild", "wild", "par", "seq"])))
    traces = _sweep(chk, groups, jobs, "random histories with records")
    good = next(t for t in traces if len(t["ev"]) > 8 and any("table" in e for e in t["ev"]))

    def corrupt(t: tp.Any) -> None:
        e = next(e for e in reversed(t["ev"]) if "table" in e)
        e["table"][-1]["n"] += 1

    chk.selftest("AskTellT", good, corrupt, "count changed")
    pruning(chk)


def run_C03(chk: Check) -> None:
    groups = ["sug"]
    exhaustive(chk, groups, ["OnePlusOne", "DE", "PSO", "CMA"], chk.scale(4, 5),
               keep=lambda h: any(e["k"] == "suggest" for e in h))
    exhaustive(chk, groups, ["OnePlusOne", "RandomSearch"], chk.scale(4, 5), constrained=True,
               keep=lambda h: any(e["k"] == "suggest" and e["val"] == 2 for e in h))
    rng = random.Random(chk.seed)
    jobs = []
    for name in zoo.all_fast(chk):
        jobs.append((name, rng.choice(["array2", "instru", "mixed"]), chk.seed, 26, groups, "wild"))
    for name in zoo.CORE:
        jobs.append((name, "constrained", chk.seed, 26, groups, "wild"))
        for s in range(chk.scale(6, 60)):
            jobs.append((name, rng.choice(zoo.PARAMS), chk.seed * 1000 + s, 30, groups, "wild"))
    traces = _sweep(chk, groups, jobs, "random histories with suggestions")
    good = next(t for t in traces if any(e["k"] == "suggest" for e in t["ev"]))

    def corrupt(t: tp.Any) -> None:
        i = next(i for i, e in enumerate(t["ev"]) if e["k"] == "suggest")
        t["ev"] = t["ev"][: i + 1] + [dict(t["ev"][i], k="ask", id=9999, frozen=True, err="",
                                           val=t["ev"][i]["val"] + 77, nask=t["ev"][i]["nask"] + 1)]

    chk.selftest("AskTellT", good, corrupt, "another value than the suggestion")
