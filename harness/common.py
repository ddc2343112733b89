"""Shared machinery of the checks: TLC runs, trace validation, evidence, verdicts.

Every check is a model (verif/spec/*.tla) plus a driver (verif/harness/chk_*.py). A driver
 - lets TLC explore the model exhaustively within the bounds of its configuration (``Check.model``),
 - obtains behaviours of the model from TLC and executes them on the real code (``Check.behaviours``),
 - records traces of the real code and lets TLC decide whether each of them is a behaviour of the
   model (``Check.validate``).
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import typing as tp
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
JAR = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(RuntimeError):
    """The check itself could not be carried out (neither pass nor violation)."""


def _classpath() -> str:
    jars = [JAR]
    base = Path(JAR).parent
    jars += sorted(str(x) for x in base.glob("*.jar") if str(x) != JAR)
    return ":".join(jars)


class Tlc(tp.NamedTuple):
    rc: int
    out: str
    generated: int
    distinct: int
    depth: int
    printed: tp.List[str]
    violated: tp.Optional[str]


def run_tlc(
    module: str,
    cfg: str,
    workdir: Path,
    env: tp.Optional[tp.Dict[str, str]] = None,
    workers: tp.Union[int, str] = 4,
    args: tp.Sequence[str] = (),
    timeout: float = 800,
    heap: str = "6g",
) -> Tlc:
    """Runs TLC on spec/<module>.tla with the given configuration text"""
    workdir.mkdir(parents=True, exist_ok=True)
    tag = f"{module}_{time.monotonic_ns()}"
    cfgfile = workdir / f"{tag}.cfg"
    cfgfile.write_text(cfg)
    meta = workdir / f"{tag}.states"
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Dtlc2.tool.impl.Tool.cdot=true"]
    cmd += [f"-Djava.io.tmpdir={workdir}", "-cp", _classpath(), "tlc2.TLC", "-metadir", str(meta)]
    cmd += ["-workers", str(workers), "-nowarning", "-noGenerateSpecTE", "-config", str(cfgfile)] + list(args)
    cmd += [str(SPEC / f"{module}.tla")]
    fullenv = dict(os.environ)
    fullenv.update(env or {})
    outfile = workdir / f"{tag}.out"
    with outfile.open("w") as f:
        try:
            rc = subprocess.run(
                cmd, stdout=f, stderr=subprocess.STDOUT, env=fullenv, cwd=str(SPEC), timeout=timeout
            ).returncode
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC timeout on {module}") from e
    out = outfile.read_text(errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = depth = 0
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
        pass
    if m is not None:
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
    m2 = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m2:
        depth = int(m2.group(1))
    if "-simulate" in args or any(a.startswith("-simulate") for a in args):
        m3 = None
        for m3 in re.finditer(r"Progress: ([\d,]+) states checked", out):
            pass
        if m3 is not None:
            gen = dist = int(m3.group(1).replace(",", ""))
    # TLC prints strings as TLA+ literals: undo the escaping
    printed = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            try:
                printed.append(json.loads(line)[2:])
            except ValueError as e:
                raise MachineryError(f"Unreadable TLC output {line[:200]!r}") from e
    viol = None
    m4 = re.search(r"Invariant (\S+) is violated", out) or re.search(r"Action property (\S+) is violated", out)
    if m4:
        viol = m4.group(1)
    elif re.search(r"Temporal propert(y|ies) .*w(as|ere) violated", out):
        viol = "temporal"
    elif "Deadlock reached" in out:
        viol = "deadlock"
    return Tlc(rc, out, gen, dist, depth, printed, viol)


def split_cfg(spec: str = "Spec", consts: tp.Optional[tp.Dict[str, tp.Any]] = None, invs: tp.Sequence[str] = (),
              props: tp.Sequence[str] = (), constraint: tp.Sequence[str] = (), deadlock: bool = False,
              init_next: tp.Optional[tp.Tuple[str, str]] = None, view: str = "",
              action_constraint: tp.Sequence[str] = ()) -> str:
    """Writes a TLC configuration"""
    lines = []
    if init_next is not None:
        lines += [f"INIT {init_next[0]}", f"NEXT {init_next[1]}"]
    else:
        lines += [f"SPECIFICATION {spec}"]
    for k, v in (consts or {}).items():
        lines.append(f"CONSTANT {k} = {tla(v)}")
    lines += [f"INVARIANT {x}" for x in invs]
    lines += [f"PROPERTY {x}" for x in props]
    lines += [f"CONSTRAINT {x}" for x in constraint]
    lines += [f"ACTION_CONSTRAINT {x}" for x in action_constraint]
    if view:
        lines.append(f"VIEW {view}")
    lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    return "\n".join(lines) + "\n"


def tla(v: tp.Any) -> str:
    """Python constant to TLC configuration constant"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        raise MachineryError("sequences are not supported in TLC configurations")
    raise MachineryError(f"cannot write {v!r}")


class Check:
    """One run of the check of one property"""

    def __init__(self, pid: str, tier: str, seed: int) -> None:
        self.pid = pid
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.t0 = time.time()
        base = VERIF / "build"
        base.mkdir(exist_ok=True)
        self.work = Path(tempfile.mkdtemp(prefix=f"{pid}_", dir=str(base)))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.behaviours_replayed = 0
        self.samples: tp.List[tp.Any] = []
        self.violations: tp.List[tp.Dict[str, tp.Any]] = []
        self.known: tp.List[str] = []
        self.notes: tp.Dict[str, tp.Any] = {}
        self.findings = load_known(pid)
        for old in (VERIF / "evidence" / "replay").glob(f"{pid}_*.json"):
            old.unlink()

    # -- deciding ---------------------------------------------------------
    def scale(self, quick: int, thorough: int) -> int:
        return quick if self.quick else thorough

    def violation(self, what: str, detail: tp.Any) -> None:
        """A violation on the real code (or known finding if it is listed)"""
        text = json.dumps(detail, default=str, sort_keys=True)
        for ident, pattern in self.findings:
            if re.search(pattern, what + " " + text):
                if ident not in self.known:
                    self.known.append(ident)
                return
        if len(self.violations) >= int(os.environ.get("VERIF_MAXV", "20")):
            return
        rdir = VERIF / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{self.pid}_{len(self.violations)}.json"
        path.write_text(json.dumps(dict(property=self.pid, what=what, seed=self.seed, tier=self.tier,
                                        detail=detail), indent=1, default=str))
        self.violations.append(dict(what=what, replay=str(path)))

    def sample(self, item: tp.Any, limit: int = 4) -> None:
        if len(self.samples) < limit:
            s = json.loads(json.dumps(item, default=str))
            text = json.dumps(s)
            self.samples.append(s if len(text) < 1500 else text[:1500] + "...")

    # -- exhaustive exploration of the model -----------------------------
    def model(self, module: str, cfg: str, name: str = "", min_states: int = 2, **kw: tp.Any) -> Tlc:
        """Explores a model; the model has to satisfy its own invariants."""
        r = run_tlc(module, cfg, self.work, **kw)
        if r.rc != 0 or r.violated:
            tail = "\n".join(r.out.splitlines()[-60:])
            raise MachineryError(f"model {module} {name}: rc={r.rc} violated={r.violated}\n{tail}")
        if r.distinct < min_states:
            raise MachineryError(f"model {module} {name}: only {r.distinct} states explored")
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", []).append(
            dict(module=module, config=name, distinct=r.distinct, generated=r.generated, depth=r.depth)
        )
        return r

    # -- behaviours out of the model -------------------------------------
    def behaviours(self, module: str, cfg: str, name: str = "", **kw: tp.Any) -> tp.List[tp.Any]:
        """Behaviours (JSON printed by the model as "@@<json>")"""
        r = self.model(module, cfg, name=name, **kw)
        out = [json.loads(x) for x in r.printed]
        if not out:
            raise MachineryError(f"{module} {name}: no behaviour was generated")
        return out

    # -- conformance of recorded traces -----------------------------------
    def validate(self, module: str, traces: tp.Sequence[tp.Dict[str, tp.Any]], what: str = "",
                 chunk: int = 4000, consts: tp.Optional[tp.Dict[str, tp.Any]] = None,
                 workers: int = 6) -> tp.List[tp.Dict[str, tp.Any]]:
        """Lets TLC decide for each trace {"cfg": ..., "ev": [...]} whether it is a behaviour of the model.
        The trace model prints one verdict {tid, l, bad} per trace (bad: names of the failing clauses)."""
        failures: tp.List[tp.Dict[str, tp.Any]] = []
        traces = list(traces)
        if not traces:
            raise MachineryError(f"{module}: no trace to validate ({what})")
        # chunks are limited in number of events
        start = 0
        while start < len(traces):
            end, count = start, 0
            while end < len(traces) and (end == start or count + len(traces[end]["ev"]) <= chunk * 20):
                count += len(traces[end]["ev"])
                end += 1
            part = traces[start:end]
            tfile = self.work / f"trace_{time.monotonic_ns()}.ndjson"
            with tfile.open("w") as f:
                for t in part:
                    f.write(json.dumps({k: t[k] for k in ("cfg", "ev")}, default=_np) + "\n")
            cfg = split_cfg(init_next=("TInit", "TNext"), consts=consts)
            r = run_tlc(module, cfg, self.work, env={"TRACE": str(tfile)}, workers=workers)
            verdicts = {}
            for line in r.printed:
                v = json.loads(line)
                verdicts[v["tid"]] = v
            if r.rc != 0 or len(verdicts) != len(part):
                lines = r.out.splitlines()
                err = [i for i, x in enumerate(lines) if x.startswith("Error")]
                i0 = err[0] if err else max(0, len(lines) - 40)
                tail = "\n".join(x[:400] for x in lines[i0 : i0 + 60])
                raise MachineryError(
                    f"trace validation {module} ({what}): rc={r.rc}, {len(verdicts)} verdicts for {len(part)} traces\n{tail}"
                )
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += len(part)
            self.events += count
            for tid, v in sorted(verdicts.items()):
                if v["bad"]:
                    t = part[tid - 1]
                    l = v["l"]
                    failures.append(
                        dict(what=what, clauses=sorted(v["bad"]), step=l,
                             event=t["ev"][l - 1] if 0 < l <= len(t["ev"]) else None,
                             before=t["ev"][max(0, l - 6) : l - 1], cfg=t["cfg"], info=t.get("info"),
                             model_state=v.get("st"))
                    )
            tfile.unlink()
            start = end
        if what:
            c = self.notes.setdefault("traces", {})
            c[what] = c.get(what, 0) + len(traces)
        return failures

    def judge(self, module: str, traces: tp.Sequence[tp.Dict[str, tp.Any]], what: str, **kw: tp.Any) -> None:
        """validates and reports"""
        for t in traces[:1]:
            self.sample(dict(what=what, cfg=t["cfg"], ev=t["ev"][:6]))
        for f in self.validate(module, traces, what=what, **kw):
            self.violation(f"{what}: " + ",".join(f["clauses"]), f)

    def selftest(self, module: str, trace: tp.Dict[str, tp.Any], corrupt: tp.Callable[[tp.Any], tp.Any],
                 what: str, **kw: tp.Any) -> None:
        """The binding must reject a corrupted trace"""
        bad = json.loads(json.dumps(trace, default=_np))
        corrupt(bad)
        before = (self.traces, self.events)
        fails = self.validate(module, [bad], **kw)
        self.traces, self.events = before
        if not fails:
            raise MachineryError(f"{module}: a corrupted trace is accepted ({what})")
        self.notes.setdefault("corrupted_traces_rejected", []).append(what)

    # -- end -----------------------------------------------------------------
    def finish(self, level: str = "model_checking", extra: tp.Optional[tp.Dict[str, tp.Any]] = None) -> int:
        ev: tp.Dict[str, tp.Any] = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level=level,
            wall_s=round(time.time() - self.t0, 2),
            coverage=dict(states=self.states, transitions=self.transitions,
                          traces_validated_against_impl=self.traces + self.behaviours_replayed,
                          samples=self.samples, events_validated=self.events,
                          behaviours_replayed=self.behaviours_replayed, **self.notes, **(extra or {})),
            violations=len(self.violations),
        )
        edir = VERIF / "evidence"
        edir.mkdir(exist_ok=True)
        (edir / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str))
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for v in self.violations:
            print(f"VIOLATION property={self.pid} replay={v['replay']}  # {v['what'][:300]}")
        if not self.violations:
            print(f"OK property={self.pid} tier={self.tier} states={self.states} traces={self.traces} "
                  f"events={self.events} replayed={self.behaviours_replayed} wall={ev['wall_s']}s")
        return 1 if self.violations else 0

    def cleanup(self) -> None:
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid: str) -> tp.List[tp.Tuple[str, str]]:
    """known_findings.txt: lines 'finding: property=<id> match=<regex> :: <description>' (and 'fixed: ...')"""
    path = VERIF / "known_findings.txt"
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(3), m.group(2)))
    return out


def _np(x: tp.Any) -> tp.Any:
    if hasattr(x, "item") and getattr(x, "shape", ()) == ():
        return x.item()
    if hasattr(x, "tolist"):
        return x.tolist()
    raise TypeError(f"{type(x)} {x!r}")


def digest(*items: tp.Any) -> str:
    return hashlib.sha1(repr(items).encode()).hexdigest()[:12]


def setup_repo() -> None:
    """Import nevergrad from the working tree of the repository"""
    sys.path.insert(0, str(REPO))
    import warnings
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import nevergrad

    if not nevergrad.__file__.startswith(str(REPO)):
        raise MachineryError(f"nevergrad was imported from {nevergrad.__file__}")


def main(modules: tp.Dict[str, str]) -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("pid")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = parser.parse_args()
    chk = Check(a.pid, a.tier, a.seed)
    try:
        setup_repo()
        import importlib

        mod = importlib.import_module(modules[a.pid])
        getattr(mod, "run_" + a.pid)(chk)
        return chk.finish()
    except MachineryError as e:
        print(f"MACHINERY property={a.pid}: {e}", file=sys.stderr)
        if chk.violations:
            return chk.finish()
        return 2
    except Exception as e:  # pylint: disable=broad-except
        from util import culprit

        traceback.print_exc()
        if culprit(e.__traceback__) == "repo":
            chk.violation("unexpected exception", traceback.format_exc()[-3000:])
        else:
            print(f"MACHINERY property={a.pid}: driver failure", file=sys.stderr)
        if chk.violations:
            return chk.finish()
        return 2
    finally:
        chk.cleanup()
