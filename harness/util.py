"""Helpers of the drivers: parallel generation of traces, recorders."""
import os
import random
import signal
import sys
import typing as tp
import warnings
import logging
import multiprocessing as mp

import numpy as np

BIG = 1000000000


class JobTimeout(BaseException):
    pass


def _alarm(*_: tp.Any) -> None:
    raise JobTimeout("timeout")


def culprit(tb: tp.Any) -> str:
    """"repo" if the exception comes out of the code under test (or of a library it called), else "verif" """
    import traceback
    from common import REPO, VERIF

    last = "verif"
    for frame in traceback.extract_tb(tb):
        if frame.filename.startswith(str(VERIF) + "/"):
            last = "verif"
        elif frame.filename.startswith(str(REPO) + "/"):
            last = "repo"
    return last


def _guard(args: tp.Any) -> tp.Any:
    func, job, timeout = args
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return ("ok", func(job))
    except JobTimeout:
        return ("timeout", repr(job)[:300])
    except Exception as e:  # pylint: disable=broad-except
        import traceback

        kind = "crash" if culprit(e.__traceback__) == "repo" else "error"
        return (kind, f"{repr(job)[:300]}\n{traceback.format_exc()[-3000:]}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def pmap(func: tp.Callable[[tp.Any], tp.Any], jobs: tp.Sequence[tp.Any], timeout: float = 60.0,
         procs: int = 8, chunksize: int = 1) -> tp.List[tp.Tuple[str, tp.Any]]:
    """Runs all jobs in forked processes; results are ("ok", value), ("timeout", job), ("crash", text) if the
    code under test raised, or ("error", text) if the driver raised"""
    args = [(func, j, timeout) for j in jobs]
    ctx = mp.get_context("fork")
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved, saved1 = os.dup(2), os.dup(1)
    sys.stdout.flush()
    os.dup2(devnull, 2)  # some optimization libraries write on stderr and stdout
    os.dup2(devnull, 1)
    try:
        with ctx.Pool(procs) as pool:
            results = pool.map(_guard, args, chunksize=chunksize)
        late = [i for i, r in enumerate(results) if r[0] == "timeout"]
        if late:  # a second chance, with a longer time, to be sure that it is not due to the machine
            retry = late[:8]
            with ctx.Pool(4) as pool:
                again = pool.map(_guard, [(func, jobs[i], 2 * timeout) for i in retry], chunksize=1)
            for i, r in zip(retry, again):
                results[i] = r
        return results
    finally:
        sys.stdout.flush()
        os.dup2(saved, 2)
        os.dup2(saved1, 1)
        os.close(saved)
        os.close(saved1)
        os.close(devnull)


def collect(chk: tp.Any, results: tp.Sequence[tp.Tuple[str, tp.Any]], what: str = "driver") -> tp.List[tp.Any]:
    """Results of the jobs; the code under test must neither raise out of a driver nor hang"""
    from common import MachineryError

    out = []
    for status, val in results:
        if status == "ok":
            if isinstance(val, list):
                out.extend(val)
            elif val is not None:
                out.append(val)
        elif status == "timeout":
            chk.violation(f"{what}: no answer (twice)", val)
        elif status == "crash":
            chk.violation(f"{what}: unexpected exception", val)
        else:
            raise MachineryError(f"driver error:\n{val}")
    return out


class Tokens:
    """Stable small integers for arbitrary hashable observations (in order of appearance)"""

    def __init__(self) -> None:
        self._d: tp.Dict[tp.Any, int] = {}

    def __call__(self, x: tp.Any) -> int:
        if isinstance(x, np.ndarray):
            x = (x.shape, x.dtype.str, x.tobytes())
        if x not in self._d:
            self._d[x] = len(self._d) + 1
        return self._d[x]


def freeze_value(v: tp.Any, digits: int = 9) -> tp.Any:
    """hashable version of a parameter value, rounded"""
    if isinstance(v, np.ndarray):
        return freeze_value(v.tolist(), digits)
    if isinstance(v, (float, np.floating)):
        r = round(float(v), digits)
        return 0.0 if r == 0 else r
    if isinstance(v, (bool, int, np.integer)):
        return int(v)
    if isinstance(v, dict):
        return ("d",) + tuple((str(k), freeze_value(v[k], digits)) for k in sorted(v, key=str))
    if isinstance(v, (list, tuple)):
        return ("t",) + tuple(freeze_value(x, digits) for x in v)
    return repr(v)


def cap(x: float, scale: int = 1) -> int:
    """integer version of a loss or estimation"""
    if x != x or x * scale >= BIG:
        return BIG
    if x * scale <= -BIG:
        return -BIG
    return int(round(x * scale))


def is_frozen(cand: tp.Any) -> bool:
    """observable: any attempt to modify it is refused"""
    try:
        cand.mutate()
    except RuntimeError:
        return True
    except Exception:  # pylint: disable=broad-except
        return False
    return False
