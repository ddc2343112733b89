"""C18: callbacks (spec/Callbacks.tla)"""
import contextlib
import io
import pickle
import random
import re
import tempfile
import time
import typing as tp
from pathlib import Path

import numpy as np
import nevergrad as ng
from nevergrad.common import errors

from common import Check, split_cfg
from util import Tokens, collect, pmap

NONE = -1
CALLS: tp.List[tp.Any] = []
PLAIN = ["RandomSearch", "OnePlusOne", "DE", "PSO", "CMA", "NGOpt", "TBPSA", "Portfolio", "ChainCMAPowell", "TwoPointsDE", "NoisyOnePlusOne", "MetaModel", "FCMA", "ES", "ScrHammersleySearch"]


class Recorder:
    """pickled with the optimizer, but the calls are recorded here"""

    def __init__(self, num: int) -> None:
        self.num = num

    def __call__(self, opt: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> None:
        out: tp.List[tp.Any] = [self.num, opt.num_ask, opt.num_tell]
        if args or kwargs:
            candidate, loss = args
            out += [loss, candidate.uid]
        CALLS.append(out)


class Lines:
    """logger"""

    def __init__(self) -> None:
        self.lines: tp.List[str] = []

    def log(self, level: int, msg: str, *args: tp.Any) -> None:
        self.lines.append(msg % args)


class Bar:
    """records what tqdm shows"""

    last: tp.Any = None

    def __init__(self, *args: tp.Any, total: tp.Any = None, **kwargs: tp.Any) -> None:
        self.total = total
        self.n = 0
        Bar.last = self

    def update(self, n: int = 1) -> None:
        self.n += n


class Runner:
    def __init__(self, name: str, cfg: tp.Dict[str, tp.Any], budget: int, tmp: tp.Optional[Path] = None, extras: tp.Sequence[str] = (), workers: int = 1, seed: int = 0) -> None:
        self.param = ng.p.Array(shape=(2, 3)) if name != "ChainCMAPowell" else ng.p.Array(shape=(3,))
        self.param.random_state.seed(seed)
        self.opt = ng.optimizers.registry[name](self.param, budget=budget, num_workers=workers)
        self.cfg = dict(window=NONE, duration=NONE, interval=NONE, seconds=NONE, budget=budget)
        self.cfg.update({k: v for k, v in cfg.items() if k in self.cfg})
        self.clock = 1000
        self.lines: tp.Any = None
        self.tmp = tmp
        self.extras = extras
        self.rng = np.random.RandomState(seed + 123457)  # never the points of the optimizer
        self.cands: tp.Dict[int, tp.Any] = {}
        self.asked = 0
        self.tok = Tokens()
        self.ev: tp.List[tp.Any] = [dict(k="start")]
        CALLS.clear()
        Bar.last = None
        cbs = ng.callbacks
        if self.cfg["window"] != NONE:
            self.opt.register_callback("ask", cbs.EarlyStopping.no_improvement_stopper(self.cfg["window"]))
        if self.cfg["duration"] != NONE:
            self.opt.register_callback("ask", cbs.EarlyStopping.timer(self.cfg["duration"]))
        if self.cfg["interval"] != NONE:
            kw = dict(interval_tells=self.cfg["interval"], interval_seconds=float(self.cfg["seconds"]))
            if "logger" in extras:
                self.lines = Lines()
                self.opt.register_callback("tell", cbs.OptimizationLogger(logger=self.lines, **{"log_" + k: v for k, v in kw.items()}))  # type: ignore
            else:
                self.opt.register_callback("tell", cbs.OptimizationPrinter(**{"print_" + k: v for k, v in kw.items()}))  # type: ignore
        if "dump" in extras:
            self.opt.register_callback("tell", cbs.OptimizerDump(tmp / "dump.pkl"))  # type: ignore
        if "bar" in extras:
            self.opt.register_callback("tell", cbs.ProgressBar())
        # removing all the callbacks would remove these ones as well
        self.own = bool(extras) or any(self.cfg[k] != NONE for k in ["window", "duration", "interval"])

    def do(self, h: tp.Dict[str, tp.Any]) -> None:
        e = dict(h)
        k, opt = h["k"], self.opt
        CALLS.clear()
        if k == "register":
            opt.register_callback(h["on"], Recorder(h["id"]))
        elif k == "remove":
            opt.remove_all_callbacks()
        elif k == "clock":
            self.clock += h["d"]
        elif k == "ask":
            try:
                cand = opt.ask()
            except errors.NevergradEarlyStopping:
                e["res"] = "stop"
            else:
                e["res"] = "ok"
                self.asked += 1
                self.cands[self.asked] = cand
        elif k == "tell":
            if h["c"]:
                cand = self.cands.pop(h["c"])
            else:
                cand = self.param.spawn_child().set_standardized_data(self.rng.normal(size=self.param.dimension))
            e["tok"] = self.tok(cand.uid)
            out = io.StringIO()
            if self.lines is not None:
                self.lines.lines.clear()
            with contextlib.redirect_stdout(out):
                opt.tell(cand, h["loss"])
            if self.cfg["interval"] != NONE:
                text = "\n".join(self.lines.lines) if self.lines is not None else out.getvalue()
                found = re.findall(r"^After (\d+),", text, flags=re.M)
                e["printed"] = int(found[0]) if len(found) == 1 else NONE if not found else -2
            if "dump" in self.extras:
                path = self.tmp / "dump.pkl"  # type: ignore
                loaded = ng.optimizers.base.Optimizer.load(path) if hasattr(ng.optimizers, "base") else type(opt).load(path)
                e["dump"] = [loaded.num_ask, loaded.num_tell]
                path.unlink()
            if "bar" in self.extras:
                e.update(bar=Bar.last.n if Bar.last else 0, total=Bar.last.total if Bar.last else 0)
        elif k == "suggest":
            opt.suggest(np.zeros(self.param.value.shape))
        elif k == "recommend":
            opt.provide_recommendation()
        elif k == "pickle":
            if self.cands:  # pending candidates are part of the state
                self.opt, self.cands = pickle.loads(pickle.dumps((opt, self.cands)))
            else:
                self.opt = pickle.loads(pickle.dumps(opt))
            self.param = self.opt.parametrization
        e["calls"] = [c[:3] if len(c) == 3 else c[:3] + [int(c[3]), self.tok(c[4])] for c in CALLS]
        if k == "ask" and e.get("res") == "stop":
            del e["calls"]
        e.update(na=opt.num_ask, nt=opt.num_tell)
        self.ev.append(e)


@contextlib.contextmanager
def environment(runner: tp.Dict[str, tp.Any]) -> tp.Iterator[Path]:
    import tqdm

    real, real_bar = time.time, tqdm.tqdm
    with tempfile.TemporaryDirectory() as tmp:
        try:
            time.time = lambda: float(runner["r"].clock) if "r" in runner else 1000.0
            tqdm.tqdm = Bar  # type: ignore
            yield Path(tmp)
        finally:
            time.time = real
            tqdm.tqdm = real_bar


def replay(job: tp.Any) -> tp.Any:
    cfg, names, hists, extras = job
    out = []
    box: tp.Dict[str, tp.Any] = {}
    with environment(box) as tmp:
        for i, hist in enumerate(hists):
            box["r"] = r = Runner(names[i % len(names)], cfg, 100, tmp, extras)
            for h in hist:
                if h["k"] == "tell" and h["c"] and h["c"] not in r.cands:
                    break  # an ask failed: the trace is refused there
                r.do(h)
            out.append(dict(cfg=r.cfg, ev=r.ev, info=dict(history=hist, name=names[i % len(names)])))
    return out


def randomized(job: tp.Any) -> tp.Any:
    rng = random.Random(f"callbacks{job}")
    style = rng.choice(["dispatch", "window", "timer", "printer", "dump", "bar"])
    name = rng.choice(PLAIN)
    cfg: tp.Dict[str, tp.Any] = {}
    extras: tp.List[str] = []
    if style == "window":
        cfg = dict(window=rng.choice([0, 1, 2, 5]))
        name = rng.choice([n for n in PLAIN if not n.startswith(("Noisy", "Chain", "TBPSA"))])
    elif style == "timer":
        cfg = dict(duration=rng.choice([1, 5, 20]))
    elif style == "printer":
        cfg = dict(interval=rng.choice([1, 2, 5, 10]), seconds=rng.choice([1, 5, 30, 500]))
        extras = rng.choice([[], ["logger"]])
    elif style in ["dump", "bar"]:
        extras = [style]
        name = rng.choice(["RandomSearch", "OnePlusOne", "DE", "CMA", "TBPSA"])
    box: tp.Dict[str, tp.Any] = {}
    with environment(box) as tmp:
        n = 20 if style == "dump" else 60
        workers = rng.choice([1, 1, 3]) if name not in ["ChainCMAPowell"] else 1
        box["r"] = r = Runner(name, cfg, rng.choice([n, 200]), tmp, extras, workers=workers, seed=job)
        regs = 0
        top = rng.choice([2, 6, 40])
        for _ in range(n):
            x = rng.random()
            sequential = name == "ChainCMAPowell"
            if x < 0.4 and len(r.cands) < workers:
                r.do(dict(k="ask"))
            elif x < 0.75 and r.cands:
                r.do(dict(k="tell", c=rng.choice(list(r.cands)), loss=rng.randint(0, top)))
            elif x < 0.8 and not sequential and name != "MetaModel":
                r.do(dict(k="tell", c=0, loss=rng.randint(0, top)))
            elif x < 0.87:
                r.do(dict(k="clock", d=rng.choice([1, 1, 3, 10])))
            elif x < 0.93 and regs < 5:
                regs += 1
                r.do(dict(k="register", on=rng.choice(["ask", "tell"]), id=regs))
            elif x < 0.95 and not r.own:
                r.do(dict(k="remove"))
            elif x < 0.97 and r.opt.num_tell > 3:
                r.do(dict(k="recommend"))
            elif x < 0.99 and style != "window":
                r.do(dict(k="suggest"))
            elif style == "bar":
                r.do(dict(k="pickle"))
    return dict(cfg=r.cfg, ev=r.ev, info=dict(job=job, name=name, style=style))


def minimized(job: tp.Any) -> tp.Any:
    """early stopping of minimize: no more asks, what is running is told"""
    rng = random.Random(f"stopped{job}")
    name = rng.choice(["RandomSearch", "OnePlusOne", "DE", "PSO", "CMA", "ScrHammersleySearch"])
    workers = rng.choice([1, 2, 4])
    budget = rng.choice([10, 40])
    cfg = dict(window=rng.choice([0, 2, 4, 8])) if rng.random() < 0.8 else dict(duration=rng.choice([2, 10]))
    box: tp.Dict[str, tp.Any] = {}
    with environment(box):
        box["r"] = r = Runner(name, cfg, budget, None, [], workers=workers, seed=job)
        opt = r.opt
        nums: tp.Dict[str, int] = {}
        ask, tell = opt.ask, opt.tell

        def ask_() -> tp.Any:
            if "duration" in cfg:
                r.clock += 1
                r.ev.append(dict(k="clock", d=1))
            try:
                cand = ask()
            except errors.NevergradEarlyStopping:
                r.ev.append(dict(k="ask", res="stop"))
                raise
            nums[cand.uid] = len(nums) + 1
            r.ev.append(dict(k="ask", res="ok"))
            return cand

        def tell_(cand: tp.Any, loss: tp.Any, *args: tp.Any) -> None:
            r.ev.append(dict(k="tell", c=nums[cand.uid], loss=int(loss)))
            tell(cand, loss, *args)

        opt.ask, opt.tell = ask_, tell_
        count = [0]
        slope = rng.choice([0, 0.2, 1])

        def func(x: tp.Any) -> float:
            count[0] += 1
            return float(max(0, int(30 - slope * count[0])) + rng.randint(0, 1))

        out = opt.minimize(func, executor=Lazy(rng), batch_mode=rng.random() < 0.3)
        r.ev.append(dict(k="end", na=opt.num_ask, nt=opt.num_tell, ret=isinstance(out, ng.p.Parameter) and out.value.shape == (2, 3)))
    return dict(cfg=r.cfg, ev=r.ev, info=dict(job=job, name=name))


class Lazy:
    """executor whose jobs are done after some polls"""

    class Job:
        def __init__(self, func: tp.Any, args: tp.Any, kwargs: tp.Any, wait: int) -> None:
            self.call, self.wait, self.out = (func, args, kwargs), wait, None

        def done(self) -> bool:
            self.wait -= 1
            return self.wait < 0

        def result(self) -> tp.Any:
            if self.out is None:
                func, args, kwargs = self.call
                self.out = func(*args, **kwargs)
            return self.out

    def __init__(self, rng: random.Random) -> None:
        self.rng = rng

    def submit(self, func: tp.Any, *args: tp.Any, **kwargs: tp.Any) -> "Lazy.Job":
        return Lazy.Job(func, args, kwargs, self.rng.choice([0, 0, 1, 3]))


def logs(job: tp.Any) -> tp.Any:
    """sessions of ParametersLogger on a file"""
    rng = random.Random(f"logs{job}")
    shape = rng.choice([(1, 1), (2, 3), (3, 1), (2, 8)])
    ev: tp.List[tp.Any] = [dict(k="start")]
    tok = Tokens()
    budget = 0
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / rng.choice(["logs.txt", "sub/dir/logs.txt"])
        for _ in range(rng.choice([1, 2, 3])):
            append = rng.random() < 0.7
            logger = ng.callbacks.ParametersLogger(path, append=append)
            ev.append(dict(k="open", append=append))
            param = ng.p.Array(shape=shape).set_integer_casting()
            param.random_state.seed(job)
            name = rng.choice(["RandomSearch", "OnePlusOne", "DE", "RecES", "CMA", "TBPSA", "PSO"])
            opt = ng.optimizers.registry[name](param, budget=60, num_workers=2)
            base = (sum(e["k"] == "ask" for e in ev), sum(e["k"] == "tell" for e in ev))
            opt.register_callback("tell", logger)
            pending: tp.List[tp.Any] = []
            for _ in range(rng.choice([3, 10, 50])):
                if len(pending) < 2 and rng.random() < 0.6:
                    pending.append(opt.ask())
                    ev.append(dict(k="ask", res="ok"))
                elif pending or rng.random() < 0.2:
                    cand = pending.pop(rng.randrange(len(pending))) if pending else param.spawn_child(new_value=np.full(shape, rng.randint(-3, 3)))
                    loss = rng.randint(0, 9)
                    cand.value  # pylint: disable=pointless-statement
                    opt.tell(cand, loss)
                    ev.append(dict(k="tell", c=0, loss=loss, uid=tok(cand.uid), gen=cand.generation, lin=tok(cand.heritage["lineage"]),
                                   par=[tok(u) for u in cand.parents_uids] if cand.generation > 1 else [], val=tok(("v",) + tuple(np.ravel(cand.value).tolist()))))
                elif rng.random() < 0.2:
                    ev.append(load(logger, base, tok, ev))
            ev.append(load(logger, base, tok, ev))
            top = rng.choice([1, 2, 5, 24])
            rows = []
            for row, full in zip(logger.load_flattened(max_list_elements=top), logger.load()):
                if np.shape(full["0"]) != shape:
                    continue
                keys = {tuple(int(i) for i in k[2:].split("_")): v for k, v in row.items() if re.match(r"^0#\d+(_\d+)*$", k)}
                rows.append([[list(k) for k in sorted(keys)], [keys[k] for k in sorted(keys)], [int(v) for v in np.ravel(full["0"])[: len(keys)]]])
            ev.append(dict(k="flat", shape=list(shape), max=top, rows=rows))
    return dict(cfg=dict(window=NONE, duration=NONE, interval=NONE, seconds=NONE, budget=budget), ev=ev, info=dict(job=job))


def load(logger: tp.Any, base: tp.Any, tok: Tokens, ev: tp.Any) -> tp.Any:
    """rows of the file; the numbers of the optimizers restart with each session, those of the model do not"""
    rows = []
    offsets = []  # of the session of each row
    na = nt = 0
    starts = [0, 0]
    for e in ev:
        if e["k"] == "open":
            starts = [na, nt]
            if not e["append"]:
                offsets = []
        elif e["k"] == "ask":
            na += 1
        elif e["k"] == "tell":
            nt += 1
            offsets.append(list(starts))
    for i, row in enumerate(logger.load()):
        off = offsets[i] if i < len(offsets) else [0, 0]
        rows.append(dict(na=row["#num-ask"] + off[0], nt=row["#num-tell"] + off[1], loss=int(row["#loss"]), uid=tok(row["#uid"]), gen=row["#generation"],
                         lin=tok(row["#lineage"]), par=[tok(u) for u in row["#parents_uids"]], val=tok(("v",) + tuple(np.ravel(row["0"]).tolist()))))
    return dict(k="load", rows=rows)


def run_C18(chk: Check) -> None:
    invs = ["InvWindow", "InvTimer", "InvRef", "InvPrint", "InvCount"]
    none = dict(Window0=NONE, Duration=NONE, Interval=NONE, Seconds=NONE, Losses={0, 1, 2}, Ticks=set(), MaxOut=2, MaxReg=0, EMIT=False, MaxLen=0)
    variants: tp.List[tp.Tuple[str, tp.Dict[str, tp.Any], int, int]] = [
        ("window 0", dict(Window0=0), 8, 6), ("window 1", dict(Window0=1), 8, 6), ("window 2", dict(Window0=2, MaxOut=3, Losses={0, 1}), 9, 7),
        ("timer", dict(Duration=2, Ticks={1, 3}, Losses={1}), 8, 6), ("printer", dict(Interval=2, Seconds=3, Ticks={1, 4}, Losses={1}, MaxOut=1), 8, 7),
        ("printer 3", dict(Interval=3, Seconds=5, Ticks={5}, Losses={1}, MaxOut=1), 9, 8), ("dispatch", dict(MaxReg=3, Losses={1}), 7, 5)]
    jobs = []
    for name, kw, deep, short in variants:
        consts = dict(none, **kw)
        shift = dict(Window0="W1", Duration="D1", Interval="I1", Seconds="S1")  # no negative constants in configurations
        given = dict(consts)
        consts = {shift.get(k, k): v + 1 if k in shift else v for k, v in consts.items()}
        consts["MaxLen"] = deep + chk.scale(0, 1)
        chk.model("CallbacksMC", split_cfg("Spec", consts, invs=invs), name=name)
        consts.update(MaxLen=short + chk.scale(0, 1), EMIT=True)
        hists = chk.behaviours("CallbacksMC", split_cfg("Spec", consts), name=f"histories {name}")
        rng = random.Random(f"{chk.seed}{name}")
        rng.shuffle(hists)
        hists = hists[: chk.scale(1200, 12000)]
        cfg = dict(window=given["Window0"], duration=given["Duration"], interval=given["Interval"], seconds=given["Seconds"])
        names = ["RandomSearch", "OnePlusOne", "DE", "PSO", "CMA", "NGOpt", "TBPSA", "Portfolio"] if "window" not in name else ["RandomSearch", "OnePlusOne", "DE", "CMA", "PSO"]
        for i in range(0, len(hists), 100):
            extras = [] if "printer" not in name or (i // 100) % 2 else ["logger"]
            jobs.append((cfg, names, hists[i : i + 100], extras))
    traces = collect(chk, pmap(replay, jobs, timeout=300), "histories")
    chk.behaviours_replayed += len(traces)
    chk.judge("CallbacksT", traces, "behaviours of the model on real optimizers")
    for func, n, what in [(randomized, chk.scale(300, 4000), "random histories"), (minimized, chk.scale(120, 1500), "early stopping of minimize"), (logs, chk.scale(80, 800), "logs")]:
        traces = collect(chk, pmap(func, [chk.seed * 100000 + i for i in range(n)], timeout=200, chunksize=4), what)
        chk.judge("CallbacksT", traces, what)
        clean = max(traces, key=lambda t: len(t["ev"]))
        if func is logs:
            clean = next(t for t in traces if any(e["k"] == "load" and e["rows"] for e in t["ev"]))

            def row(t: tp.Any) -> None:
                next(e for e in t["ev"] if e["k"] == "load" and e["rows"])["rows"].pop()

            chk.selftest("CallbacksT", clean, row, "lost row")
        elif func is minimized:
            clean = next(t for t in traces if any(e.get("res") == "stop" for e in t["ev"]))

            def late(t: tp.Any) -> None:
                next(e for e in t["ev"] if e.get("res") == "stop")["res"] = "ok"

            chk.selftest("CallbacksT", clean, late, "no stop")
        else:
            clean = next(t for t in traces if any(e.get("calls") for e in t["ev"]))

            def lost(t: tp.Any) -> None:
                next(e for e in t["ev"] if e.get("calls"))["calls"].pop()

            chk.selftest("CallbacksT", clean, lost, "callback not called")
